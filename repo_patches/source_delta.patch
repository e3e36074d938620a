From 7db3b68e881b0548f8685322f28ff256e6c25505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 01/45] fix: multi_consumer_event::set() reports a resumed
 waiter only if there was one

---
 include/asyncpp/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e6092e3..ee95e67 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -339,7 +339,7 @@ namespace asyncpp {
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
 			auto state = m_state.exchange(this, std::memory_order::acq_rel);
-			if (state == this) return false;
+			if (state == nullptr || state == this) return false;
 			auto await = static_cast<awaiter*>(state);
 			while (await != nullptr) {
 				auto next = await->m_next;
-- 
2.43.0


From fbbd8c7dc82760ecd8c46b0c07680de8b716da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 02/45] fix: multi_consumer_auto_reset_event waits acquire the
 set state and never drop other waiters

---
 include/asyncpp/event.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index ee95e67..e4a19ff 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -560,16 +560,16 @@ namespace asyncpp {
 				//       because in that case we just enter the main loop in await_suspend
 				// Returns true if the value was updated (i.e. old_state equalled m_parent and cas succeeded)
 				return m_parent->m_state.compare_exchange_weak( //
-					old_state, nullptr, std::memory_order::release, std::memory_order::acquire);
+					old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire);
 			}
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
 				void* old_state = m_parent->m_state.load(std::memory_order::acquire);
-				do {
+				while (true) {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
-								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
+								old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire))
 							return false;
 						// the state changed between load and compare (either because another coroutine was faster or the event was reset).
 						// Retry from the start
@@ -577,8 +577,10 @@ namespace asyncpp {
 					}
 					// The event is unset, add the existing awaiter (if any) to the list and suspend the coroutine
 					m_next = static_cast<awaiter*>(old_state);
-				} while (!m_parent->m_state.compare_exchange_weak( //
-					old_state, this, std::memory_order::release, std::memory_order::acquire));
+					if (m_parent->m_state.compare_exchange_weak( //
+							old_state, this, std::memory_order::release, std::memory_order::acquire))
+						break;
+				}
 				return true;
 			}
 			constexpr void await_resume() const noexcept {}
-- 
2.43.0


From d6b171d1c03820651456cd442b06152fa56fd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 03/45] fix: latch releases its waiters when the counter
 reaches zero

---
 include/asyncpp/latch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/latch.h b/include/asyncpp/latch.h
index 2099ddd..b8fe44e 100644
--- a/include/asyncpp/latch.h
+++ b/include/asyncpp/latch.h
@@ -39,7 +39,7 @@ namespace asyncpp {
          * \note It is undefined if the sum of all decrement calls exceeds the counter value.
          */
 		void decrement(std::size_t n = 1) noexcept {
-			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == 0) { m_event.set(); }
+			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n) { m_event.set(); }
 		}
 
 		/**
-- 
2.43.0


From 2ebcafcca908684bfe73eb22082ffdfe7ee48538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 04/45] fix: channel write() returns true when it hands its
 value to a waiting reader

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 6757539..41bbbda 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -281,6 +281,7 @@ namespace asyncpp {
 			lck.unlock();
 			// Copy the value over
 			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From 3e2f88609d00f4735709e2bfcefc4f76a186ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 05/45] fix: channel read() does not suspend on a channel
 closed concurrently

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 41bbbda..f679f45 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -229,6 +229,7 @@ namespace asyncpp {
 		m_handle = hndl;
 		m_next = nullptr;
 		std::unique_lock lck{m_parent->m_mtx};
+		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
 			// Unhook writer
-- 
2.43.0


From c5f186520b9e0b73d2f3e31c18eb42f4486fb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 06/45] fix: queue with a capacity of zero hands values from
 suspended pushes to pops

---
 include/asyncpp/queue.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 547588d..dde6c8b 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -225,8 +225,8 @@ namespace asyncpp {
 	template<typename T, typename TContainer>
 	inline bool queue<T, TContainer>::try_push(T&& value) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
+		// Early exit if we are oversized (and nobody is waiting to take the value right away)
+		if (m_pop_list == nullptr && m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			m_pop_list = awaiter->m_next;
@@ -245,8 +245,8 @@ namespace asyncpp {
 	template<typename... Args>
 	inline bool queue<T, TContainer>::try_emplace(Args&&... args) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
+		// Early exit if we are oversized (and nobody is waiting to take the value right away)
+		if (m_pop_list == nullptr && m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			m_pop_list = awaiter->m_next;
@@ -264,8 +264,17 @@ namespace asyncpp {
 	template<typename T, typename TContainer>
 	inline std::optional<T> queue<T, TContainer>::try_pop() {
 		std::unique_lock lck{m_mtx};
-		// Early out if the queue is empty
-		if (m_queue.empty()) return std::nullopt;
+		if (m_queue.empty()) {
+			// Early out if the queue is empty
+			auto awaiter = m_push_list;
+			if (awaiter == nullptr) return std::nullopt;
+			// A queue without capacity takes the value right out of the first suspended push
+			m_push_list = awaiter->m_next;
+			lck.unlock();
+			std::optional<T> res{std::move(awaiter->m_value)};
+			awaiter->resume();
+			return res;
+		}
 		// Pop the first value
 		std::optional<T> res{std::move(m_queue.front())};
 		m_queue.pop();
@@ -326,8 +335,17 @@ namespace asyncpp {
 	inline bool queue<T, TContainer>::pop_awaiter::await_ready() {
 		std::unique_lock lck{m_parent->m_mtx};
 		if (m_parent->m_queue.empty()) {
-			lck.release(); // We unlock inside suspend
-			return false;
+			auto awaiter = m_parent->m_push_list;
+			if (awaiter == nullptr) {
+				lck.release(); // We unlock inside suspend
+				return false;
+			}
+			// A queue without capacity takes the value right out of the first suspended push
+			m_parent->m_push_list = awaiter->m_next;
+			lck.unlock();
+			m_result.emplace(std::move(awaiter->m_value));
+			awaiter->resume();
+			return true;
 		}
 		m_result.emplace(std::move(m_parent->m_queue.front()));
 		m_parent->m_queue.pop();
-- 
2.43.0


From e4d78569f01de3ca095d0721bbd5dc1ef2062431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 07/45] fix: queue::try_emplace keeps the waiting pop if
 constructing the value throws

---
 include/asyncpp/queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index dde6c8b..5b5b736 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -249,11 +249,13 @@ namespace asyncpp {
 		if (m_pop_list == nullptr && m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
+			// Construct the value first, because the task needs to keep waiting if this throws
+			T value{std::forward<Args>(args)...};
 			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(T{std::forward<Args>(args)...});
+			awaiter->resume(std::move(value));
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
-- 
2.43.0


From 5ed033687f0a1bb5f8c85d1e44464f198a147472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 08/45] fix: thread_safe_refcount orders earlier uses of the
 object before its destruction

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 6ca7a8a..626606d 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -31,7 +31,7 @@ namespace asyncpp {
 		thread_safe_refcount& operator=(const thread_safe_refcount& other) = delete;
 
 		size_t fetch_increment() noexcept { return m_count.fetch_add(1, std::memory_order::acquire); }
-		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::release); }
+		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::acq_rel); }
 		[[nodiscard]] size_t count() const noexcept { return m_count.load(std::memory_order::relaxed); }
 	};
 	/**
-- 
2.43.0


From 2e4651d23c435ffd1080edc9c288626924a6eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 09/45] fix: assigning to a ref keeps the new object alive
 while the old one is released

---
 include/asyncpp/ref.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 626606d..d12df17 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -169,8 +169,7 @@ namespace asyncpp {
 		/// \brief Move assignment operator
 		//NOLINTNEXTLINE(hicpp-noexcept-move,performance-noexcept-move-constructor)
 		ref& operator=(ref&& other) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = std::exchange(other.m_ptr, nullptr);
+			reset(other.release(), adopt_ref);
 			return *this;
 		}
 		/**
@@ -180,9 +179,8 @@ namespace asyncpp {
 		 */
 		void reset(T* ptr) noexcept(noexcept(refcounted_add_ref(std::declval<T*>())) &&
 									noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
-			if (m_ptr) refcounted_add_ref(m_ptr);
+			if (ptr) refcounted_add_ref(ptr);
+			reset(ptr, adopt_ref);
 		}
 		/**
 		 * \brief Reset the handle with a new value
@@ -190,8 +188,8 @@ namespace asyncpp {
 		 * \param adopt_ref the reference count is already incremented, keep it as is
 		 */
 		void reset(T* ptr, decltype(adopt_ref)) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle to nullptr
-- 
2.43.0


From c75aec2c482b003aadf96f509b5ca096775b83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:44 +0000
Subject: [PATCH 10/45] fix: promise_first_successful is not rejected while one
 of its arguments is being fulfilled

---
 include/asyncpp/promise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0360c71..31e5628 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -495,8 +495,8 @@ namespace asyncpp {
 		auto finished = std::make_shared<std::atomic<size_t>>(0);
 		(args.then(
 			 [result_promise, finished](const typename promise<TArgs>::result_type& res) mutable {
-				 finished->fetch_add(1);
 				 result_promise.try_fulfill(res);
+				 finished->fetch_add(1);
 			 },
 			 [result_promise, finished](const std::exception_ptr& exception) mutable {
 				 if (finished->fetch_add(1) + 1 == sizeof...(args)) result_promise.try_reject(exception);
-- 
2.43.0


From e0ca8b2c48be0d252f70a82b90ad958f68b769c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:44 +0000
Subject: [PATCH 11/45] fix: promise_all without arguments is fulfilled

---
 include/asyncpp/promise.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 31e5628..6379ec1 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -519,6 +519,7 @@ namespace asyncpp {
 			promise<void> result;
 		};
 		auto shared = std::make_shared<state>();
+		if constexpr (sizeof...(args) == 0) shared->result.fulfill();
 		(args.on_settle([shared]() mutable {
 			auto curid = shared->count.fetch_add(1);
 			if (curid + 1 == sizeof...(args)) { shared->result.fulfill(); }
-- 
2.43.0


From 7ba41ac5e17f24fbdd954ee74ee691c9f4a2f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:10 +0000
Subject: [PATCH 12/45] fix: threadsafe_queue can be copied

---
 include/asyncpp/threadsafe_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 3244203..8ae49cd 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -14,7 +14,7 @@ namespace asyncpp {
 	 */
 	template<typename T, typename Container = std::deque<T>>
 	class threadsafe_queue {
-		std::mutex m_mutex{};
+		mutable std::mutex m_mutex{};
 		std::queue<T, Container> m_queue{};
 
 	public:
-- 
2.43.0


From 6461d9271287efbbca281ef1ee5881e03ff681ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 13/45] fix: move-assigning a stop_source releases the stop
 state it held

---
 include/asyncpp/stop_token.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/stop_token.h b/include/asyncpp/stop_token.h
index a38a46c..55fa863 100644
--- a/include/asyncpp/stop_token.h
+++ b/include/asyncpp/stop_token.h
@@ -305,7 +305,10 @@ namespace asyncpp {
 			return *this;
 		}
 
-		stop_source& operator=(stop_source&&) noexcept = default;
+		stop_source& operator=(stop_source&& other) noexcept {
+			stop_source(std::move(other)).swap(*this);
+			return *this;
+		}
 
 		~stop_source() {
 			if (m_state) m_state->sub_ssrc();
-- 
2.43.0


From 834437b1831b25427a6f227d7353525fded03127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 14/45] fix: generators of references compile

---
 include/asyncpp/generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/generator.h b/include/asyncpp/generator.h
index 7f94e89..4b0818f 100644
--- a/include/asyncpp/generator.h
+++ b/include/asyncpp/generator.h
@@ -51,7 +51,7 @@ namespace asyncpp {
 			suspend_never await_transform(U&& value) = delete;
 
 		private:
-			T* m_value{nullptr};
+			pointer_type m_value{nullptr};
 			std::exception_ptr m_exception{nullptr};
 		};
 
-- 
2.43.0


From 579a6884a31b1fa47e146014efc2c9ef3e09e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 15/45] fix: async_generators of references compile

---
 include/asyncpp/async_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/async_generator.h b/include/asyncpp/async_generator.h
index 698ded6..e0acd9a 100644
--- a/include/asyncpp/async_generator.h
+++ b/include/asyncpp/async_generator.h
@@ -45,7 +45,7 @@ namespace asyncpp {
 			void rethrow_if_unhandled_exception() {
 				if (m_exception) { std::rethrow_exception(std::move(m_exception)); }
 			}
-			[[nodiscard]] T* value() const noexcept { return m_value; }
+			[[nodiscard]] std::remove_reference_t<T>* value() const noexcept { return m_value; }
 
 		protected:
 			[[nodiscard]] async_generator_yield_operation internal_yield_value() noexcept {
@@ -62,7 +62,7 @@ namespace asyncpp {
 			coroutine_handle<> m_consumer;
 
 		protected:
-			T* m_value;
+			std::remove_reference_t<T>* m_value;
 		};
 
 		template<typename T, ByteAllocator Allocator>
@@ -85,7 +85,7 @@ namespace asyncpp {
 		};
 
 		template<typename T, ByteAllocator Allocator>
-		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T>,
+		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T&&>,
 															  public promise_allocator_base<Allocator> {
 		public:
 			async_generator_promise() noexcept = default;
@@ -135,7 +135,7 @@ namespace asyncpp {
 				};
 				return increment_op{*this};
 			}
-			[[nodiscard]] reference operator*() const noexcept { return *static_cast<T*>(m_promise->value()); }
+			[[nodiscard]] reference operator*() const noexcept { return *m_promise->value(); }
 			[[nodiscard]] bool operator==(const async_generator_iterator& other) const noexcept {
 				return m_promise == other.m_promise;
 			}
-- 
2.43.0


From 705a0bd948486e34e72fb8a2b8f257f71d70645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 16/45] fix: coroutine frames from stateful allocators are
 aligned and the stored allocator is destroyed

---
 .../asyncpp/detail/promise_allocator_base.h   | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 66939c0..d7a46bf 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -2,6 +2,7 @@
 #include <asyncpp/detail/concepts.h>
 #include <asyncpp/detail/parameter_pack.h>
 #include <asyncpp/detail/std_import.h>
+#include <new>
 #include <type_traits>
 
 namespace asyncpp {
@@ -18,6 +19,13 @@ namespace asyncpp::detail {
 	public:
 		using allocator_type = Allocator;
 
+	private:
+		// Offset of the allocator stored behind a frame of the given size
+		static constexpr size_t allocator_offset(size_t size) noexcept {
+			return (size + alignof(allocator_type) - 1) / alignof(allocator_type) * alignof(allocator_type);
+		}
+
+	public:
 		template<typename... Args>
 		void* operator new(size_t size, Args&&... args) {
 			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value) {
@@ -29,9 +37,11 @@ namespace asyncpp::detail {
 				static_assert(std::is_convertible_v<std::remove_cvref_t<decltype(alloc)>&, allocator_type> ||
 								  std::is_constructible_v<allocator_type, decltype(alloc)>,
 							  "last argument is not of allocator type");
-				auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + sizeof(allocator_type));
-				auto aptr = new (ptr) allocator_type{std::move(alloc)};
-				return aptr + 1;
+				// The allocator is stored behind the frame, so the frame keeps the alignment of the allocation
+				std::byte* ptr = std::allocator_traits<allocator_type>::allocate(
+					alloc, allocator_offset(size) + sizeof(allocator_type));
+				new (ptr + allocator_offset(size)) allocator_type{std::move(alloc)};
+				return ptr;
 			}
 		}
 		void operator delete(void* ptr, size_t size) {
@@ -40,10 +50,12 @@ namespace asyncpp::detail {
 				allocator_type alloc{};
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr), size);
 			} else {
-				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
+				auto* bytes = static_cast<std::byte*>(ptr);
+				auto* info = std::launder(reinterpret_cast<allocator_type*>(bytes + allocator_offset(size)));
 				auto alloc = std::move(*info);
-				std::allocator_traits<allocator_type>::deallocate(
-					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
+				info->~allocator_type();
+				std::allocator_traits<allocator_type>::deallocate(alloc, bytes,
+																  allocator_offset(size) + sizeof(allocator_type));
 			}
 		}
 	};
-- 
2.43.0


From 90d0728ea4562c848d5661dc898980afb0628c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 17/45] fix: exception_policy::ignore ignores exceptions

---
 include/asyncpp/policy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/policy.h b/include/asyncpp/policy.h
index 74d4519..7d7da04 100644
--- a/include/asyncpp/policy.h
+++ b/include/asyncpp/policy.h
@@ -25,5 +25,5 @@ namespace asyncpp {
 		static exception_policy handle(std::function<void()> cbfn) { return exception_policy{std::move(cbfn)}; }
 	};
 	inline const exception_policy exception_policy::terminate = {[]() { std::terminate(); }};
-	inline const exception_policy exception_policy::ignore = {};
+	inline const exception_policy exception_policy::ignore = {[]() {}};
 } // namespace asyncpp
-- 
2.43.0


From fb7275959aa7d3bf8f7fa30a67c781d8076ccbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 18/45] fix: fire_and_forget_task releases itself only after it
 has suspended

---
 include/asyncpp/fire_and_forget.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fd93659..bcb1210 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -43,14 +43,12 @@ namespace asyncpp {
 				}
 				auto final_suspend() noexcept {
 					struct awaiter {
-						promise_type* self;
-						[[nodiscard]] constexpr bool await_ready() const noexcept {
-							return self->m_ref_count.fetch_sub(1) == 1;
-						}
-						void await_suspend(coroutine_handle<>) const noexcept {}
+						[[nodiscard]] constexpr bool await_ready() const noexcept { return false; }
+						// Only release the reference once fully suspended, another owner might destroy the coroutine
+						void await_suspend(coroutine_handle<promise_type> hndl) const noexcept { hndl.promise().unref(); }
 						constexpr void await_resume() const noexcept {}
 					};
-					return awaiter{this};
+					return awaiter{};
 				}
 				constexpr void return_void() noexcept {}
 				void unhandled_exception() noexcept {
-- 
2.43.0


From 54a71c5c115de649a84b2ed4496fa6d8b19b3398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 19/45] fix: fire_and_forget_task copies can not be started
 twice

---
 include/asyncpp/fire_and_forget.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index bcb1210..3a2e19a 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -23,6 +23,7 @@ namespace asyncpp {
 			// Promise type of this task
 			class promise_type : public promise_allocator_base<Allocator> {
 				std::atomic<size_t> m_ref_count{1};
+				std::atomic<bool> m_started{Eager};
 				std::function<void()> m_exception_handler{};
 
 			public:
@@ -71,6 +72,7 @@ namespace asyncpp {
 					if (m_ref_count.fetch_sub(1) == 1) coroutine_handle<promise_type>::from_promise(*this).destroy();
 				}
 				void ref() noexcept { m_ref_count.fetch_add(1); }
+				bool try_start() noexcept { return !m_started.exchange(true); }
 			};
 
 			/// \brief Construct from a handle
@@ -108,7 +110,7 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro && !m_coro.done()) {
+				if (m_coro && m_coro.promise().try_start()) {
 					m_coro.resume();
 					// Make sure it is only started once
 					m_coro.promise().unref();
-- 
2.43.0


From 2271c65444574437d3fb661f37e4fd906ad57a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 20/45] fix: async_launch_scope resumes a join exactly once and
 does not touch a destroyed scope

---
 include/asyncpp/launch.h | 59 ++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 5cc02b2..3ff9366 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -49,9 +49,23 @@ namespace asyncpp {
 	 * \brief Holder class for spawning child tasks. Allows waiting for all of them to finish.
 	 */
 	class async_launch_scope {
+		// Lowest bit: a suspended coroutine waits for the tasks, only set while there are tasks. Rest: number of tasks.
+		static constexpr size_t joining_bit = 1U;
+		static constexpr size_t task_inc = 2U;
 		std::atomic<size_t> m_count{0U};
 		std::atomic<void*> m_continuation{nullptr};
 
+		void task_done() noexcept {
+			auto count = m_count.load();
+			// The last task also takes over the responsibility of resuming the awaiter
+			while (!m_count.compare_exchange_weak(count, count == (task_inc | joining_bit) ? 0 : count - task_inc)) {}
+			// If nobody waits the scope might already be gone, otherwise it lives until the awaiter is resumed
+			if (count == (task_inc | joining_bit)) {
+				auto hdl = m_continuation.exchange(nullptr);
+				coroutine_handle<>::from_address(hdl).resume();
+			}
+		}
+
 	public:
 		constexpr async_launch_scope() noexcept = default;
 		async_launch_scope(const async_launch_scope&) = delete;
@@ -67,16 +81,8 @@ namespace asyncpp {
 		void launch(Awaitable&& awaitable, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, std::decay_t<Awaitable> awaitable,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_count.fetch_add(task_inc);
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await awaitable;
 			}(this, std::forward<decltype(awaitable)>(awaitable), allocator);
 		}
@@ -93,16 +99,8 @@ namespace asyncpp {
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_count.fetch_add(task_inc);
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::apply(callable, std::move(args));
 			}(this, std::forward<Callable>(callable), std::move(args), allocator);
 		}
@@ -118,16 +116,8 @@ namespace asyncpp {
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
 			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_count.fetch_add(task_inc);
+				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
 			}(this, std::forward<Callable>(callable), std::forward<Args>(args)...);
 		}
@@ -149,7 +139,12 @@ namespace asyncpp {
 					if (!m_scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
 						throw std::logic_error("duplicate join");
 					// We might have nothing left to wait on if the last coroutine finished in the meantime
-					return m_scope->m_count.load() != 0;
+					auto count = m_scope->m_count.load();
+					while (count != 0) {
+						if (m_scope->m_count.compare_exchange_weak(count, count | joining_bit)) return true;
+					}
+					m_scope->m_continuation.store(nullptr);
+					return false;
 				}
 				constexpr void await_resume() const noexcept {}
 			};
@@ -178,7 +173,7 @@ namespace asyncpp {
 		 * \brief Returns the number of active task on this scope
 		 * \warning Only use this value for informational purposes, it might change at any time.
 		 */
-		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed); }
+		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed) / task_inc; }
 
 		/**
 		 * \brief Returns true if there is no active task currently running on this scope
-- 
2.43.0


From 12ca63ca0fd0abf27601c39b8025e6e8978e66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 21/45] fix: simple_dispatcher::run() does not miss a
 concurrent stop()

---
 include/asyncpp/simple_dispatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 9f51937..f7eae40 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -43,8 +43,10 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
-			while (!m_done) {
+			while (true) {
 				std::unique_lock lck{m_mtx};
+				// This has to be checked with the lock held, otherwise we might miss the notification of a concurrent stop()
+				if (m_done) break;
 				if (m_queue.empty()) {
 					m_cv.wait(lck);
 					continue;
-- 
2.43.0


From 3256c418fcaaaf93d9306ebd3e0aa46c3e8d9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 22/45] fix: simple_dispatcher::run() restores the current
 dispatcher when a callback throws

---
 include/asyncpp/simple_dispatcher.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index f7eae40..96440e1 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -42,7 +42,11 @@ namespace asyncpp {
          * \brief Block and process tasks pushed to it until stop is called.
          */
 		void run() {
-			dispatcher* const old_dispatcher = dispatcher::current(this);
+			// Restore the previous dispatcher even if a callback throws
+			struct restore_dispatcher {
+				dispatcher* const old_dispatcher;
+				~restore_dispatcher() { dispatcher::current(old_dispatcher); }
+			} const guard{dispatcher::current(this)};
 			while (true) {
 				std::unique_lock lck{m_mtx};
 				// This has to be checked with the lock held, otherwise we might miss the notification of a concurrent stop()
@@ -56,7 +60,6 @@ namespace asyncpp {
 				lck.unlock();
 				if (cbfn) cbfn();
 			}
-			dispatcher::current(old_dispatcher);
 		}
 	};
 } // namespace asyncpp
-- 
2.43.0


From 9f9d62975231c38103e33c2b3646385a8c3a83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 23/45] fix: thread_pool::push() from a worker of another pool
 uses the right pool

---
 include/asyncpp/thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index ea81125..efea212 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -40,7 +40,8 @@ namespace asyncpp {
 		 */
 		void push(std::function<void()> cbfn) override {
 			if (!cbfn) return;
-			if (g_current_thread != nullptr) {
+			// Workers of a different pool can't use their local queue
+			if (g_current_thread != nullptr && g_current_thread->pool == this) {
 				std::unique_lock lck{g_current_thread->mutex};
 				g_current_thread->queue.emplace(std::move(cbfn));
 			} else {
-- 
2.43.0


From 4e4a7786d9bded562158c545e45f155bbcade122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 24/45] fix: thread_pool does not lose or repeat tasks pushed
 or stolen while it shrinks

---
 include/asyncpp/thread_pool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index efea212..2bdbb62 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -63,9 +63,13 @@ namespace asyncpp {
 			std::unique_lock lck{m_resize_mtx};
 			auto old = m_target_size.load();
 			if (old > target_size) {
-				// Prevent new tasks from being scheduled on those threads
-				m_valid_size = target_size;
-				m_target_size = target_size;
+				{
+					// Prevent new tasks from being scheduled on those threads. The lock makes sure nobody
+					// is currently pushing to or stealing from a thread that is going to exit.
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_valid_size = target_size;
+					m_target_size = target_size;
+				}
 				// Notify all and join threads, if the threads index is greater or equal to m_target_size,
 				// it will invoke its remaining tasks and exit.
 				for (size_t i = target_size; i < m_threads.size(); i++) {
-- 
2.43.0


From 481aad592079587fda8a17a798563c89969592b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 25/45] fix: timer cancellation does not race with or deadlock
 against schedule() and expiry

---
 include/asyncpp/timer.h | 65 ++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3724245..e8b4c06 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -41,36 +41,30 @@ namespace asyncpp {
 				std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::const_iterator it;
 				/// \brief Invocation operator called on cancellation
 				void operator()() const {
-					// We have to distinguish between cancellation while in the process of construction and
-					// cancellation afterwards. If the stop_token is signalled at the time of construction it directly
-					// invokes the callback, however if we would lock at that point we would cause a deadlock with the
-					// outside lock in schedule(). We also can't directly delete the node in this case because
-					// std::optional<>::emplace tries to set a flag after construction which would cause use after free.
-					// Thus we set a flag in schedule() and postpone both the invoke and deletion until after emplace is done.
-					// If we are not in construction we need to lock and can directly destroy the node once we are done.
-					if (it->in_construction) {
-						auto entry =
-							new std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::node_type(
-								parent->m_scheduled_cancellable_set.extract(it));
-						if (entry->value().invokable) {
-							parent->m_pushed.emplace([entry]() {
-								entry->value().invokable(false);
-								delete entry;
-							});
-						}
-					} else {
-						std::unique_lock lck{parent->m_mtx};
-						auto entry = parent->m_scheduled_cancellable_set.extract(it);
-						lck.unlock();
-						if (entry.value().invokable) {
-							parent->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
-							parent->m_cv.notify_all();
-						}
+					// If the stop_token is already signalled while schedule() registers us we get invoked directly
+					// by schedule(), which holds the lock. The node can't be removed at that point because
+					// std::optional<>::emplace still accesses it, so only tell schedule() to do it afterwards.
+					if (g_scheduling == &*it) {
+						it->cancelled = true;
+						return;
 					}
+					std::unique_lock lck{parent->m_mtx};
+					// The timer already removed the node and is going to invoke it. It waits for us to return
+					// before the node gets destroyed.
+					if (it->extracted) return;
+					auto entry = parent->m_scheduled_cancellable_set.extract(it);
+					parent->push_cancelled(std::move(entry.value().invokable));
+					lck.unlock();
+					// Note: Destroying the node destroys this object
 				}
 			};
 			mutable std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
-			mutable bool in_construction{true};
+			/// \brief Set if the stop_token was already signalled in schedule(), only used by the scheduling thread
+			mutable bool cancelled{false};
+			/// \brief Set once the timer has removed the node, protected by m_mtx
+			mutable bool extracted{false};
+			/// \brief Node currently being scheduled by this thread
+			inline static thread_local const cancellable_scheduled_entry* g_scheduling{nullptr};
 
 			cancellable_scheduled_entry(std::chrono::steady_clock::time_point time,
 										std::function<void(bool)> cbfn) noexcept
@@ -147,8 +141,10 @@ namespace asyncpp {
 			if (m_exit) throw std::logic_error("shutting down");
 			std::unique_lock lck(m_mtx);
 			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
+			cancellable_scheduled_entry::g_scheduling = &*iter;
 			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
-			iter->in_construction = false;
+			cancellable_scheduled_entry::g_scheduling = nullptr;
+			if (iter->cancelled) push_cancelled(std::move(m_scheduled_cancellable_set.extract(iter).value().invokable));
 			m_cv.notify_all();
 		}
 		/**
@@ -288,6 +284,13 @@ namespace asyncpp {
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
+		/// \brief Queue the invocation of a cancelled callback, needs to be called with m_mtx locked
+		void push_cancelled(std::function<void(bool)> cbfn) {
+			if (!cbfn) return;
+			m_pushed.emplace([cbfn = std::move(cbfn)]() { cbfn(false); });
+			m_cv.notify_all();
+		}
+
 		void run() noexcept {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
@@ -322,14 +325,16 @@ namespace asyncpp {
 					auto elem = m_scheduled_cancellable_set.begin();
 					if (elem->timepoint > now) break;
 					auto handle = m_scheduled_cancellable_set.extract(elem);
+					handle.value().extracted = true;
+					lck.unlock();
+					// This waits for a running cancel_callback which in turn might wait for the lock
+					handle.value().cancel_token.reset();
 					if (handle.value().invokable) {
-						handle.value().cancel_token.reset();
-						lck.unlock();
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
-						lck.lock();
 					}
+					lck.lock();
 				}
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
-- 
2.43.0


From f1203b693bbf4af323d2d432c50a1d5c3a861798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 26/45] fix: timer shutdown invokes callbacks that are
 cancelled meanwhile

---
 include/asyncpp/timer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index e8b4c06..591887c 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -295,8 +295,8 @@ namespace asyncpp {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
 #endif
+			std::unique_lock lck(m_mtx);
 			while (true) {
-				std::unique_lock lck(m_mtx);
 				while (!m_pushed.empty()) {
 					auto entry = std::move(m_pushed.front());
 					m_pushed.pop();
@@ -346,9 +346,12 @@ namespace asyncpp {
 					m_cv.wait_for(lck, timeout);
 				}
 			}
-			std::unique_lock lck(m_mtx);
+			// The lock is still held, so nothing was cancelled since we last checked m_pushed. From here on the
+			// remaining callbacks are invoked below, even if they get cancelled in the meantime.
 			auto set = std::move(m_scheduled_set);
 			auto cset = std::move(m_scheduled_cancellable_set);
+			for (const auto& entry : cset)
+				entry.extracted = true;
 			lck.unlock();
 			for (const auto& entry : set) {
 				if (entry.invokable) {
@@ -358,6 +361,7 @@ namespace asyncpp {
 				}
 			}
 			for (const auto& entry : cset) {
+				entry.cancel_token.reset();
 				if (entry.invokable) {
 					try {
 						entry.invokable(false);
-- 
2.43.0


From 660e8cd52da8ef7861ea07d8b74a0c5c18d54a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 27/45] fix: signals can be move-assigned, prepended to and
 take lvalue callables

---
 include/asyncpp/signal.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 68b3b77..512941b 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <mutex>
 #include <shared_mutex>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -110,7 +111,8 @@ namespace asyncpp {
 			~node_impl() noexcept = default;
 			void invoke(const TParams&... params) override { m_fn(params...); }
 			[[no_unique_address]] FN m_fn;
-			explicit node_impl(FN&& fncb) : m_fn(std::move(fncb)) {}
+			template<typename TArg>
+			explicit node_impl(TArg&& fncb) : m_fn(std::forward<TArg>(fncb)) {}
 		};
 
 	public:
@@ -291,6 +293,7 @@ namespace asyncpp {
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
 		m_current_counter.store(other.m_current_counter.exchange(1));
+		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
@@ -321,7 +324,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->previous = m_tail;
@@ -337,7 +340,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->next = m_head;
@@ -345,7 +348,7 @@ namespace asyncpp {
 			m_head = new_node;
 		} else {
 			m_head = new_node;
-			m_tail = new_node;
+			m_tail = new_node.get();
 		}
 		return handle(static_ref_cast<detail::signal_node_base>(new_node));
 	}
-- 
2.43.0


From d46007146b2a9cfdbbae1343dbf5e53b2c4add39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:15 +0000
Subject: [PATCH 28/45] fix: callbacks added to a signal during an invocation
 are not invoked by it

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 512941b..e05f17a 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -388,7 +388,7 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter >= node->counter) {
+			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From 42c91a2191c928d24debcc3db4d88b8663d1cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 29/45] fix: signal nodes are unlinked only once

---
 include/asyncpp/signal.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index e05f17a..255ca0e 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -105,6 +105,8 @@ namespace asyncpp {
 
 			ref<node> next{};
 			node* previous{};
+			/// \brief True while this node is part of the list, protected by the signals mutex
+			bool linked{};
 		};
 		template<typename FN>
 		struct node_impl final : node {
@@ -171,9 +173,11 @@ namespace asyncpp {
 		}
 
 		void free_node(ref<node>& node) const noexcept {
+			node->counter = detail::signal_removed_counter;
+			// Already unlinked: our neighbours might be gone or have new ones by now
+			if (!std::exchange(node->linked, false)) return;
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
-			node->counter = detail::signal_removed_counter;
 			if (m_head == node) m_head = node->next;
 			if (m_tail == node) m_tail = node->previous;
 		}
@@ -286,6 +290,7 @@ namespace asyncpp {
 		while (node) {
 			auto next = node->next;
 			node->previous = nullptr;
+			node->linked = false;
 			node->next.reset();
 			node = next;
 		}
@@ -303,6 +308,7 @@ namespace asyncpp {
 		while (node) {
 			auto next = node->next;
 			node->previous = nullptr;
+			node->linked = false;
 			node->next.reset();
 			node = next;
 		}
@@ -326,6 +332,7 @@ namespace asyncpp {
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
 		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
+		new_node->linked = true;
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->previous = m_tail;
 			m_tail->next = new_node;
@@ -342,6 +349,7 @@ namespace asyncpp {
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
 		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
+		new_node->linked = true;
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->next = m_head;
 			m_head->previous = new_node.get();
-- 
2.43.0


From 3c6860f19df5a8b30effe222305b0e9362d5b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 30/45] fix: signals destroy callbacks after releasing their
 mutex

---
 include/asyncpp/signal.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 255ca0e..2faf231 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -284,17 +284,10 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
+		// Gets our current callbacks and destroys them after the mutex is released, their destructors might use the signal
+		signal old;
 		std::scoped_lock lck{m_mutex, other.m_mutex};
-		auto node = m_head;
-		m_head.reset();
-		while (node) {
-			auto next = node->next;
-			node->previous = nullptr;
-			node->linked = false;
-			node->next.reset();
-			node = next;
-		}
-		assert(!node);
+		old.m_head = std::move(m_head);
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
 		m_current_counter.store(other.m_current_counter.exchange(1));
@@ -401,6 +394,8 @@ namespace asyncpp {
 				++ninvoked;
 			}
 
+			// Keep the current node alive until the mutex is released, the destructor of the callback might use the signal
+			const auto current = node;
 			std::lock_guard lck(m_mutex);
 			if (node->counter == detail::signal_removed_counter) { free_node(node); }
 			node = node->next;
-- 
2.43.0


From 7616e84fc5c353e22779668dfbf2b0c5573d0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 31/45] fix: signal_manager can be used while callbacks run and
 does not drop slots in use

---
 include/asyncpp/signal.h | 51 +++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 2faf231..5713d67 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <cassert>
 #include <cstddef>
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <type_traits>
@@ -209,34 +210,26 @@ namespace asyncpp {
 
 		template<typename FN>
 		handle append(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.append(std::forward<decltype(fncb)>(fncb));
+			return find_or_create_slot(event)->append(std::forward<decltype(fncb)>(fncb));
 		}
 		template<typename FN>
 		handle prepend(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.prepend(std::forward<decltype(fncb)>(fncb));
+			return find_or_create_slot(event)->prepend(std::forward<decltype(fncb)>(fncb));
 		}
 
 		bool remove(event_type event, const handle& hdl) {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.remove(hdl);
+			const auto slot = find_slot(event);
+			return slot && slot->remove(hdl);
 		}
 
 		bool owns_handle(event_type event, const handle& hdl) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.owns_handle(hdl);
+			const auto slot = find_slot(event);
+			return slot && slot->owns_handle(hdl);
 		}
 
 		size_t invoke(event_type event, const TParams&... params) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			if (iter == m_mapping.end()) return 0;
-			return iter->second(params...);
+			const auto slot = find_slot(event);
+			return slot ? (*slot)(params...) : 0;
 		}
 
 		size_t operator()(event_type event, const TParams&... params) const { return invoke(event, params...); }
@@ -245,7 +238,8 @@ namespace asyncpp {
 			std::unique_lock lck{m_mutex};
 			size_t res = 0;
 			for (auto it = m_mapping.begin(); it != m_mapping.end();) {
-				if (it->second.empty()) {
+				// Slots currently used by another operation (or one calling us) are kept
+				if (it->second.use_count() == 1 && it->second->empty()) {
 					res++;
 					it = m_mapping.erase(it);
 				} else
@@ -256,19 +250,22 @@ namespace asyncpp {
 
 	private:
 		mutable std::shared_mutex m_mutex{};
-		std::unordered_map<event_type, signal_type> m_mapping;
+		std::unordered_map<event_type, std::shared_ptr<signal_type>> m_mapping;
 
-		auto find_or_create_slot(event_type evt) {
+		// The returned pointer prevents shrink_to_fit from removing the slot. m_mutex is not held while
+		// working with it, because callbacks are allowed to use the manager.
+		std::shared_ptr<signal_type> find_slot(const event_type& evt) const {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(evt);
-			if (iter == m_mapping.end()) {
-				lck.unlock();
-				std::unique_lock unique{m_mutex};
-				iter = m_mapping.find(evt);
-				if (iter != m_mapping.end()) return iter;
-				iter = m_mapping.emplace(evt, signal_type{}).first;
-			}
-			return iter;
+			return iter != m_mapping.end() ? iter->second : nullptr;
+		}
+
+		std::shared_ptr<signal_type> find_or_create_slot(const event_type& evt) {
+			if (auto slot = find_slot(evt)) return slot;
+			std::unique_lock lck{m_mutex};
+			auto& slot = m_mapping[evt];
+			if (!slot) slot = std::make_shared<signal_type>();
+			return slot;
 		}
 	};
 
-- 
2.43.0


From e331eb992e9a12b53f5c2c9ac973a0a3f6dec6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 32/45] fix: signal_manager can be moved

---
 include/asyncpp/signal.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 5713d67..a217b31 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -202,9 +202,19 @@ namespace asyncpp {
 
 		signal_manager() = default;
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager(signal_manager&&);
+		signal_manager(signal_manager&& other) {
+			std::unique_lock lck{other.m_mutex};
+			m_mapping.swap(other.m_mapping);
+		}
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager& operator=(signal_manager&&);
+		signal_manager& operator=(signal_manager&& other) {
+			if (this == &other) return *this;
+			decltype(m_mapping) old; // Destroyed after the mutex is released
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			old.swap(m_mapping);
+			m_mapping.swap(other.m_mapping);
+			return *this;
+		}
 		signal_manager(const signal_manager&) = delete;
 		signal_manager& operator=(const signal_manager&) = delete;
 
-- 
2.43.0


From f9dc0570f6abb37a3bb09ab0cc6c93a739d56234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 33/45] fix: a suspended fiber is not touched after its
 await_suspend returned

---
 include/asyncpp/fiber.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5e84505..2372ec4 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -754,12 +754,17 @@ namespace asyncpp::detail {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) break;
+						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) {
+							// The fiber is suspended and might already be resumed (or even destroyed)
+							// by someone else, so hndl can not be used anymore.
+							g_current_fiber = old;
+							return;
+						}
 					} catch (...) { hndl->suspend_exception = std::current_exception(); }
 				}
 			}
 			g_current_fiber = old;
-			if (hndl->resume_cb == nullptr && hndl->continuation != nullptr) { hndl->continuation.resume(); }
+			if (hndl->continuation != nullptr) { hndl->continuation.resume(); }
 		};
 		hndl->destroy_cb = [](fiber_handle_base* hndl) {
 			// Signal destruction and resume, then delete self
-- 
2.43.0


From 2468c809ffc3368f307f1fa154d6a5b91288127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 34/45] fix: destroying a suspended fiber does not resume the
 coroutine awaiting it

---
 include/asyncpp/fiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 2372ec4..2a516a9 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -770,6 +770,8 @@ namespace asyncpp::detail {
 			// Signal destruction and resume, then delete self
 			if (hndl->resume_cb != nullptr && hndl->was_started) {
 				hndl->want_destroy = true;
+				// Whoever awaits this fiber must not be resumed by its destruction
+				hndl->continuation = nullptr;
 				hndl->resume_cb(hndl);
 				assert(hndl->resume_cb == nullptr);
 			}
-- 
2.43.0


From b591fd286faa9d5bcc9c57b3e28034c77a9d706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 35/45] fix: reject fiber stack sizes that overflow and never
 create empty stacks

---
 include/asyncpp/fiber.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 2a516a9..8335cfa 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -44,8 +44,9 @@ namespace asyncpp::detail {
 	inline bool fiber_allocate_stack(stack_context& ctx, size_t size) noexcept {
 		static size_t pagesize = sysconf(_SC_PAGESIZE);
 
-		// Round the stacksize to the next multiple of pages
-		const auto page_count = (size + pagesize - 1) / pagesize;
+		// Round the stacksize to the next multiple of pages (at least one, and make sure adding the guard pages can not overflow)
+		if (size > SIZE_MAX - pagesize * 3) return false;
+		const auto page_count = size == 0 ? 1 : (size + pagesize - 1) / pagesize;
 		size = page_count * pagesize;
 		const auto alloc_size = size + (pagesize * 2);
 #if defined(MAP_STACK)
-- 
2.43.0


From 336159b2562b6da33c700650b4a2d3a2fda0d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 36/45] fix: fibers start with valid floating point control
 words

---
 include/asyncpp/fiber.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 8335cfa..b5d73de 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -154,6 +154,11 @@ namespace asyncpp::detail {
 		sp -= sizeof(stack_frame) / sizeof(uintptr_t);
 		memset(sp, 0, reinterpret_cast<uintptr_t>(stack.stack) - reinterpret_cast<uintptr_t>(sp));
 		auto frame = reinterpret_cast<stack_frame*>(sp);
+		// The fiber starts with the floating point environment of its creator
+		// NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw));
+		// NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
 		assert((reinterpret_cast<uintptr_t>(sp) % 16) == 0xc);
@@ -182,6 +187,11 @@ namespace asyncpp::detail {
 		sp -= sizeof(stack_frame) / sizeof(uintptr_t);
 		memset(sp, 0, reinterpret_cast<uintptr_t>(stack.stack) - reinterpret_cast<uintptr_t>(sp));
 		auto frame = reinterpret_cast<stack_frame*>(sp);
+		// The fiber starts with the floating point environment of its creator
+		// NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("stmxcsr %0" : "=m"(frame->mmx_cw));
+		// NOLINTNEXTLINE(hicpp-no-assembler)
+		asm volatile("fnstcw %0" : "=m"(frame->x87_cw));
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
 #elif defined(__arm__)
-- 
2.43.0


From 586f50a001a9a625de3da1de90d621f4dd3fb5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 37/45] fix: restore the stack guard to its TLS slot when
 switching fibers

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index b5d73de..bc51141 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -372,7 +372,7 @@ namespace asyncpp::detail {
 			"fldcw   0x4(%rsp)\n" // Restore x87 control-word
 #ifdef SAVE_TLS_STACK_PROTECTOR
 			"movq 0x8(%rsp), %rcx\n" // Restore stack guard to TLS record
-			"movq %rcx, %fs:28\n"
+			"movq %rcx, %fs:0x28\n"
 #endif
 			// Restore callee saved registers
 			"movq  0x10(%rsp), %r12\n"
-- 
2.43.0


From 099b9f45fd573449fe598b549712da3b6f4d0e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 38/45] fix: fibers can await lvalues and return move-only
 results

---
 include/asyncpp/fiber.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index bc51141..dd78a78 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -870,12 +870,12 @@ namespace asyncpp::detail {
 			using AwaitResult = decltype(awaiter.await_suspend(std::declval<coroutine_handle<>>()));
 			hndl->suspend_handler = [](void* ptr, coroutine_handle<> hndl) {
 				if constexpr (std::is_same_v<AwaitResult, void>) {
-					static_cast<T*>(ptr)->await_suspend(hndl);
+					static_cast<std::remove_reference_t<T>*>(ptr)->await_suspend(hndl);
 					return true;
 				} else if constexpr (std::is_same_v<AwaitResult, bool>) {
-					return static_cast<T*>(ptr)->await_suspend(hndl);
+					return static_cast<std::remove_reference_t<T>*>(ptr)->await_suspend(hndl);
 				} else { // Treat everything else as a coroutine_handle to resume
-					static_cast<T*>(ptr)->await_suspend(hndl).resume();
+					static_cast<std::remove_reference_t<T>*>(ptr)->await_suspend(hndl).resume();
 					return true;
 				}
 			};
@@ -1100,7 +1100,7 @@ namespace asyncpp {
 		 * \brief Get an awaitable for this fiber.
 		 * \return auto An awaiter that is resumed once the fiber finishes
 		 */
-		auto operator co_await() && { return await(); }
+		auto operator co_await() && { return std::move(*this).await(); }
 	};
 
 	template<typename FN>
-- 
2.43.0


From 5fef7016716dd9d40e8f9ee20163b63c2e645f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 39/45] fix: async_launch_scope::invoke copies callables passed
 as lvalues into the task

---
 include/asyncpp/launch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 3ff9366..be10987 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -97,7 +97,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args, ByteAllocator Allocator = default_allocator_type>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
-			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->m_count.fetch_add(task_inc);
 				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
@@ -115,7 +115,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
-			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
 				scope->m_count.fetch_add(task_inc);
 				scope_guard guard{[scope]() noexcept { scope->task_done(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
-- 
2.43.0


From c6f73edeeac18d15af9df5689ec61be63617e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 40/45] fix: threadsafe_queue lvalues can be copied by
 construction

---
 include/asyncpp/threadsafe_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 8ae49cd..f104a8f 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -23,6 +23,7 @@ namespace asyncpp {
 		* \param args Arguments to forward to the container constructor
 		*/
 		template<typename... Args>
+			requires(std::is_constructible_v<std::queue<T, Container>, Args...>)
 		explicit threadsafe_queue(Args&&... args) : m_queue(std::forward<Args>(args)...) {}
 
 		threadsafe_queue(const threadsafe_queue& other) {
-- 
2.43.0


From 3997dd525e94e7e33699764c3698bbb4367cd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 41/45] fix: atomic_ref keeps the reference count balanced when
 it refuses a pointer

exchange() released its argument before checking it, so the reference was
lost when it threw std::logic_error.
---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index d12df17..a8c9bc8 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -373,8 +373,8 @@ namespace asyncpp {
 		 * \throw std::logic_error if the pointer value collides with the lock_mask
 		 */
 		ref<T> exchange(ref<T> hdl) {
+			if ((reinterpret_cast<uintptr_t>(hdl.get()) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 			auto ptr = hdl.release();
-			if ((reinterpret_cast<uintptr_t>(ptr) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 
 			// Lock the current pointer value
 			auto val = lock();
-- 
2.43.0


From 9e9af1263bc1142b511a364c1fb1c81a93d4b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 42/45] fix: assigning over a signal unlinks its callbacks with
 the mutex held

---
 include/asyncpp/signal.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index a217b31..8168c2d 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -291,13 +291,26 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
-		// Gets our current callbacks and destroys them after the mutex is released, their destructors might use the signal
-		signal old;
-		std::scoped_lock lck{m_mutex, other.m_mutex};
-		old.m_head = std::move(m_head);
-		m_head = std::exchange(other.m_head, nullptr);
-		m_tail = std::exchange(other.m_tail, nullptr);
-		m_current_counter.store(other.m_current_counter.exchange(1));
+		ref<node> old;
+		{
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			old = std::move(m_head);
+			m_head = std::exchange(other.m_head, nullptr);
+			m_tail = std::exchange(other.m_tail, nullptr);
+			m_current_counter.store(other.m_current_counter.exchange(1));
+		}
+		// Our old callbacks are unlinked with the mutex held, because another thread might still be invoking them, but
+		// destroyed without it, because their destructors might use the signal
+		while (old) {
+			ref<node> next;
+			{
+				std::lock_guard lck{m_mutex};
+				next = std::move(old->next);
+				if (next) next->previous = nullptr;
+				old->linked = false;
+			}
+			old = std::move(next);
+		}
 		return *this;
 	}
 
-- 
2.43.0


From 499c788c8434bfa6d79e26b6d75666d636f3d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 43/45] fix: moving a signal keeps callbacks that are added
 concurrently invocable

---
 include/asyncpp/signal.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 8168c2d..d5b4017 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -173,6 +173,13 @@ namespace asyncpp {
 			return result;
 		}
 
+		// Makes sure nodes moved from another signal are older than the next invocation. Counters are never lowered,
+		// because a concurrent append might already have taken a value that it has not linked yet.
+		void raise_counter(size_t counter) noexcept {
+			auto current = m_current_counter.load();
+			while (current < counter && !m_current_counter.compare_exchange_weak(current, counter)) {}
+		}
+
 		void free_node(ref<node>& node) const noexcept {
 			node->counter = detail::signal_removed_counter;
 			// Already unlinked: our neighbours might be gone or have new ones by now
@@ -285,7 +292,7 @@ namespace asyncpp {
 		std::scoped_lock lck{m_mutex, other.m_mutex};
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
-		m_current_counter.store(other.m_current_counter.exchange(1));
+		raise_counter(other.m_current_counter);
 	}
 
 	template<typename... TParams, typename TTraits>
@@ -297,7 +304,7 @@ namespace asyncpp {
 			old = std::move(m_head);
 			m_head = std::exchange(other.m_head, nullptr);
 			m_tail = std::exchange(other.m_tail, nullptr);
-			m_current_counter.store(other.m_current_counter.exchange(1));
+			raise_counter(other.m_current_counter);
 		}
 		// Our old callbacks are unlinked with the mutex held, because another thread might still be invoking them, but
 		// destroyed without it, because their destructors might use the signal
-- 
2.43.0


From 3784bdf687779f77ad5510d25c8358314565cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 44/45] fix: timer durations beyond the last point in time do
 not expire at once

---
 include/asyncpp/detail/deadline.h | 19 +++++++++++++++++++
 include/asyncpp/timer.h           |  9 +++++----
 2 files changed, 24 insertions(+), 4 deletions(-)
 create mode 100644 include/asyncpp/detail/deadline.h

diff --git a/include/asyncpp/detail/deadline.h b/include/asyncpp/detail/deadline.h
new file mode 100644
index 0000000..9b6681a
--- /dev/null
+++ b/include/asyncpp/detail/deadline.h
@@ -0,0 +1,19 @@
+#pragma once
+#include <chrono>
+#include <type_traits>
+
+namespace asyncpp::detail {
+	/**
+	 * \brief Get the point in time after the given duration from now, limited to the last representable point in time.
+	 * \param timeout The duration to add to the current time
+	 */
+	template<typename Rep, typename Period>
+	inline std::chrono::steady_clock::time_point deadline_after(std::chrono::duration<Rep, Period> timeout) noexcept {
+		using steady_clock = std::chrono::steady_clock;
+		using duration = std::chrono::duration<std::common_type_t<Rep, steady_clock::rep>, Period>;
+		const auto now = steady_clock::now();
+		if (duration{timeout} > std::chrono::duration_cast<duration>(steady_clock::time_point::max() - now))
+			return steady_clock::time_point::max();
+		return now + std::chrono::ceil<steady_clock::duration>(timeout);
+	}
+} // namespace asyncpp::detail
diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 591887c..e6d01af 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <asyncpp/detail/deadline.h>
 #include <asyncpp/detail/std_import.h>
 #include <asyncpp/dispatcher.h>
 #include <asyncpp/stop_token.h>
@@ -118,7 +119,7 @@ namespace asyncpp {
 		 * \param timeout The duration to wait before executing the callback
 		 */
 		void schedule(std::function<void(bool)> cbfn, std::chrono::nanoseconds timeout) {
-			schedule(std::move(cbfn), std::chrono::steady_clock::now() + timeout);
+			schedule(std::move(cbfn), detail::deadline_after(timeout));
 		}
 		/**
 		 * \brief Schedule a callback to be executed after a certain duration expires.
@@ -154,7 +155,7 @@ namespace asyncpp {
 		 * \param stoken stop_token allowing to cancel the callback
 		 */
 		void schedule(std::function<void(bool)> cbfn, std::chrono::nanoseconds timeout, asyncpp::stop_token stoken) {
-			schedule(std::move(cbfn), std::chrono::steady_clock::now() + timeout, std::move(stoken));
+			schedule(std::move(cbfn), detail::deadline_after(timeout), std::move(stoken));
 		}
 		/**
 		 * \brief Schedule a callback to be executed after a certain duration expires with a stop_token
@@ -202,7 +203,7 @@ namespace asyncpp {
 		 */
 		template<typename Rep, typename Period>
 		auto wait(std::chrono::duration<Rep, Period> timeout) noexcept {
-			return wait(std::chrono::steady_clock::now() + timeout);
+			return wait(detail::deadline_after(timeout));
 		}
 		/**
 		 * \brief Get an awaitable that pauses the current coroutine until the specified duration is elapsed.
@@ -254,7 +255,7 @@ namespace asyncpp {
 		 */
 		template<typename Rep, typename Period>
 		auto wait(std::chrono::duration<Rep, Period> timeout, asyncpp::stop_token stoken) noexcept {
-			return wait(std::chrono::steady_clock::now() + timeout, std::move(stoken));
+			return wait(detail::deadline_after(timeout), std::move(stoken));
 		}
 		/**
 		 * \brief Get an awaitable that pauses the current coroutine until the specified duration is elapsed, allows cancellation.
-- 
2.43.0


From 20636b81f92735d7066ed7913761f4e6b463fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 45/45] fix: a timed get of a promise with a huge timeout does
 not give up at once

---
 include/asyncpp/promise.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 6379ec1..fb5eeec 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <asyncpp/detail/deadline.h>
 #include <asyncpp/detail/std_import.h>
 #include <asyncpp/ref.h>
 
@@ -265,7 +266,7 @@ namespace asyncpp {
          */
 		template<class Rep, class Period>
 		[[nodiscard]] TResult* get(std::chrono::duration<Rep, Period> timeout) const {
-			auto until = std::chrono::steady_clock::now() + timeout;
+			const auto until = detail::deadline_after(timeout);
 			state& info = *m_state;
 			std::unique_lock lck{info.m_mtx};
 			if (!info.m_cv.wait_until(lck, until, [&info]() { return info.m_value.index() != state::pending_index; }))
-- 
2.43.0

