From d5b62d5be6d15564edf0ad32aab05ba413bc3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 01/50] fix: SequentialMap::insert stores the value of the
 entry, not only its key

---
 util/sequential_map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..7c133e1 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -49,7 +49,7 @@ public:
 			return {data.end(), false};
 		}
 
-		data[newsize].first = entry.first;
+		data[newsize] = entry;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From 11516212463abc355487f03f9c46c26707700875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 02/50] fix: SequentialMap const operator[] does not return a
 reference to a temporary

---
 util/sequential_map.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 7c133e1..2880e1e 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT not_found{};
+		return not_found;
 	}
 
 	ValT &operator[](const KeyT key) {
-- 
2.43.0


From 7900a79e2e49e8f125ed7dc55aa9a61ca706347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 03/50] fix: CircularStack constructed from values contains
 those values

---
 util/circular_stack.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/circular_stack.hh b/util/circular_stack.hh
index ff76d2e..1a250b6 100644
--- a/util/circular_stack.hh
+++ b/util/circular_stack.hh
@@ -21,7 +21,9 @@ public:
 
 	template<typename... Ts>
 	CircularStack(const Ts... t)
-		: data{t...} {
+		: data{t...}
+		, top_idx{sizeof...(Ts) % MaxElements}
+		, full{sizeof...(Ts) == MaxElements} {
 	}
 
 	void push_back(T el) {
-- 
2.43.0


From 07eeeb611591a34f4e1c4ea2b6dfce94138a4d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 04/50] fix: SeqMap::remove takes the element out of the map;
 remove_last removes the newest element

---
 util/seq_map.hh | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/util/seq_map.hh b/util/seq_map.hh
index c031b43..d92f3bb 100644
--- a/util/seq_map.hh
+++ b/util/seq_map.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <span>
@@ -55,23 +56,35 @@ struct SeqMap {
 		return nullptr;
 	}
 
+	// removes the most recently added element
 	void remove_last() {
-		if (sz > 0)
+		if (sz > 0) {
+			rotate_oldest_to_front();
 			sz--;
+		}
 	}
 
 	// returns true if found and removed
+	// This invalidates pointers to values
 	bool remove(KeyT key) {
-		auto active_keys = std::span<KeyT>{keys}.subspan(0, sz);
-		for (size_t i = 0; auto &k : active_keys) {
-			if (k == key) {
-				k = KeyT{};
-				vals[i] = ValT{};
-				return true;
-			}
+		if (!key_exists(key))
+			return false;
+
+		rotate_oldest_to_front();
+
+		size_t i = 0;
+		while (!(keys[i] == key))
 			i++;
+
+		for (; i + 1 < sz; i++) {
+			keys[i] = keys[i + 1];
+			vals[i] = vals[i + 1];
 		}
-		return false;
+
+		sz--;
+		keys[sz] = KeyT{};
+		vals[sz] = ValT{};
+		return true;
 	}
 
 	bool key_exists(KeyT key) const {
@@ -86,4 +99,12 @@ struct SeqMap {
 	size_t size() const {
 		return sz;
 	}
+
+private:
+	// Once elements have been overwritten, the oldest one might not be at the front
+	void rotate_oldest_to_front() {
+		std::rotate(keys.begin(), keys.begin() + oldest, keys.begin() + sz);
+		std::rotate(vals.begin(), vals.begin() + oldest, vals.begin() + sz);
+		oldest = 0;
+	}
 };
-- 
2.43.0


From ec8077e575e6c0a0f8ea27996c4d67f1576032dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 05/50] fix: LockFreeFifoSpsc initial contents are copied by
 element, not by byte

---
 util/lockfree_fifo_spsc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..e88d880 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
 #include <array>
 #include <atomic>
 #include <optional>
@@ -17,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		std::copy(src.begin(), src.end(), buf_.begin());
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From fddc0d69b899a68921ad9115b11f3dee715beb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 06/50] fix: MonotonicAllocator can hand out its last byte

---
 util/monotonic_allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/monotonic_allocator.hh b/util/monotonic_allocator.hh
index ac81066..354e137 100644
--- a/util/monotonic_allocator.hh
+++ b/util/monotonic_allocator.hh
@@ -10,8 +10,8 @@ public:
 
 	uint8_t *allocate(std::size_t size) {
 		auto bytesRemaining = arena.size() - offset;
-		if (bytesRemaining > size) {
-			auto result = &arena[offset];
+		if (bytesRemaining >= size) {
+			auto result = arena.data() + offset;
 			offset += size;
 
 			return result;
-- 
2.43.0


From 038de414644c9d70ba145a06d26655eab09e4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 07/50] fix: DoubleBufferStream recovers when the transmit
 function refuses a transmission

---
 util/doublebuf_stream.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/util/doublebuf_stream.hh b/util/doublebuf_stream.hh
index 0fbd8aa..ad17450 100644
--- a/util/doublebuf_stream.hh
+++ b/util/doublebuf_stream.hh
@@ -44,7 +44,9 @@ struct DoubleBufferStream {
 
 	// Pushes to the inactive buffer and starts transmission if it's not already started
 	bool transmit(std::span<T> word) {
-		auto inactive_idx = 1 - in_progress_idx.value_or(1);
+		// With no transmission in progress, buffer 1 might still have queued data if it could not be transmitted
+		auto idle_idx = tx_buffer[1].size() ? 1u : 0u;
+		auto inactive_idx = in_progress_idx.has_value() ? 1 - in_progress_idx.value() : idle_idx;
 		auto &inactive_buf = tx_buffer[inactive_idx];
 
 		if (inactive_buf.available() >= word.size()) {
@@ -56,7 +58,12 @@ struct DoubleBufferStream {
 			// Start a new transmission if one isn't in progress
 			if (!in_progress_idx.has_value()) {
 				// pr_dbg("DBS::transmit(): no tx in progress, so starting now\n");
-				return start_tx(inactive_idx);
+				if (start_tx(inactive_idx))
+					return true;
+
+				// Not transmitted: remove it from the queue so it can be tried again
+				inactive_buf.resize_for_overwrite(inactive_buf.size() - word.size());
+				return false;
 			}
 
 			// tx_done_callback() will transmit our data when it's called
@@ -82,6 +89,7 @@ struct DoubleBufferStream {
 
 		if (tx_buffer[other_buffer].size()) {
 			// pr_dbg("DBS: tx_done_callback(): starting tx for buffer[%u]\n", other_buffer);
+			// If this is refused, then the data stays queued until the next call to transmit()
 			start_tx(other_buffer);
 		} else {
 			in_progress_idx = std::nullopt;
@@ -94,6 +102,8 @@ private:
 		// pr_dbg("DBS::start_tx(): starting tx of buffer[%u]\n", idx);
 		auto &active_buf = tx_buffer[idx];
 		auto res = transmit_func({active_buf.begin(), active_buf.size()});
+		if (!res)
+			in_progress_idx = std::nullopt;
 		return res;
 	}
 };
-- 
2.43.0


From 1a0485b31ff280848194e51f21ac1d09458addc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 08/50] fix: LockFreeFifoSpsc get() and get_move() acquire the
 element published by put()

---
 util/lockfree_fifo_spsc.hh     | 4 ++--
 util/lockfree_fifo_spsc_dyn.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index e88d880..bfddf97 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -67,7 +67,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -81,7 +81,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..9f7763d 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
-- 
2.43.0


From c8c694b3db6fc516431da752602e205a71a7a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 09/50] fix: LockFreeFifoSpsc reset() releases the slots to the
 producer

---
 util/lockfree_fifo_spsc.hh     | 2 +-
 util/lockfree_fifo_spsc_dyn.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index bfddf97..b361347 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -129,7 +129,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_acquire), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index 9f7763d..d1d60d8 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -148,7 +148,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_acquire), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
-- 
2.43.0


From 4db2f298e8737a7b2897b6b52cbeb5a3594167ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 10/50] fix: WearLevel and WearLeveler do not return data from
 a cell that could not be read

---
 util/wear_level.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..9f30a7a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -98,8 +97,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
-- 
2.43.0


From 10d9d0c31b34accd29ddf787759da9b7cf4fba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 11/50] fix: WearLevel and WearLeveler keep their data and a
 valid position when erasing fails

---
 util/wear_level.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index 9f30a7a..f810157 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -64,7 +64,8 @@ public:
 				if (erased_once)
 					return false;
 				if (!storage.erase()) {
-					cell_ = 0;
+					// Keep reading all cells, and erase again before the next write
+					cell_ = Storage::NumCells;
 					return false;
 				}
 				cell_ = 0;
@@ -111,8 +112,11 @@ public:
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
 					return false;
-				if (!Storage::erase())
+				if (!Storage::erase()) {
+					// Keep reading all cells, and erase again before the next write
+					cell_ = Storage::cell_nr_;
 					return false;
+				}
 				cell_ = 0;
 				erased_once = true;
 			}
-- 
2.43.0


From 9744618657ed0c6aedf15cda2e4b894d73084f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 12/50] fix: CircularBufferOpt::fill_buffer fills every
 element, not the first max_size bytes

---
 util/circular_buffer_opt.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..62ddfcd 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -95,11 +95,12 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		for (auto &el : buf_)
+			el = val;
 	}
 
 	// Alias for count()
-- 
2.43.0


From d786910b58d9936063bc5c797c1922830bd442ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 13/50] fix: CircularBuffer::first() compiles

---
 util/circular_buffer.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 45781ae..59f1bbf 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -45,7 +45,11 @@ public:
 	}
 
 	// Return a reference to the first element
-	T &first() const {
+	T &first() {
+		return buf_[tail_];
+	}
+
+	const T &first() const {
 		return buf_[tail_];
 	}
 
-- 
2.43.0


From 267a45b7b3266acac435237309b15c19f4e8da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 14/50] fix: CircularBufferBlock::write copies whole elements

---
 util/circular_buffer_block.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..464c176 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -17,11 +17,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::memcpy(&*begin, block.data(), block.size() * sizeof(T));
 		} else {
 			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			std::memcpy(&*begin, block.data(), space_avail * sizeof(T));
+			std::memcpy(data.data(), block.data() + space_avail, (block.size() - space_avail) * sizeof(T));
 		}
 	}
 
-- 
2.43.0


From 217fd839870498e0f71997aa1261c4929abbf440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 15/50] fix: CircularBufferAccess writes at full phase store
 the data exactly

---
 util/circular_buffer_ext.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_ext.hh b/util/circular_buffer_ext.hh
index 40b51e9..3ebe52b 100644
--- a/util/circular_buffer_ext.hh
+++ b/util/circular_buffer_ext.hh
@@ -60,7 +60,9 @@ public:
 	bool write(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = d;
+			if (phase != 1.f)
+				xfade = d * phase + buf[wr] * (1.f - phase);
 			buf[wr++] = xfade;
 			if (wr >= sz) {
 				wr = 0;
@@ -73,7 +75,9 @@ public:
 	bool write_reverse(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = d;
+			if (phase != 1.f)
+				xfade = d * phase + buf[wr] * (1.f - phase);
 			buf[wr--] = xfade;
 			if (wr >= sz) {
 				wr = sz - 1;
-- 
2.43.0


From 2891bd55bfe01bf5c1c5afd0b80b400ff1837ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 16/50] fix: StaticString<0> does not write past its storage
 when copying a non-empty string_view

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From 43fbef89a476e799b98d57c9c3a4222cf91c66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 17/50] fix: CompactBinaryParser rejects sizes so large that
 offset + size overflows

---
 util/compact_binary_parser.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..82510b4 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -57,7 +57,7 @@ struct CompactBinaryParser {
 	constexpr std::optional<T> get(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
 		if (sz == sizeof(T)) {
-			if (size_t(offset + sz) <= blob.size()) {
+			if (size_t(sz) <= blob.size() - size_t(offset)) {
 				auto parsing = blob.subspan(offset);
 				return as<T>(parsing);
 			}
@@ -67,7 +67,7 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
+		if (size_t(sz) <= blob.size() - size_t(offset))
 			return blob.subspan(offset, sz);
 		else
 			return {};
-- 
2.43.0


From 2a319c86f4eb19776d4e2a8ef857f41776b059eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 18/50] fix: PollEvent fires after a period when the tick
 counter wraps

---
 util/poll_event.hh | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..7bb4f34 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 template<typename TimeT = long int>
 struct PollEvent {
@@ -7,24 +8,22 @@ struct PollEvent {
 	}
 
 	void poll(TimeT now, auto action) {
-		bool expired = false;
-
-		// Handle overflow
-		if (now < last_poll) {
-			if (now >= TimeT(last_poll + period)) {
-				expired = true;
-			}
-		} else if ((now - last_poll) >= period) {
-			expired = true;
-		}
-
-		if (expired) {
+		if (elapsed(now) >= period) {
 			last_poll = now;
 			action();
 		}
 	}
 
 private:
+	TimeT elapsed(TimeT now) const {
+		// Unsigned subtraction handles overflow of the tick counter
+		if constexpr (std::is_integral_v<TimeT>) {
+			using UTimeT = std::make_unsigned_t<TimeT>;
+			return static_cast<TimeT>(static_cast<UTimeT>(now) - static_cast<UTimeT>(last_poll));
+		} else
+			return now - last_poll;
+	}
+
 	TimeT period;
 	TimeT last_poll{};
 };
-- 
2.43.0


From 7ec6b6dfb6ff4465b6ee79a257d7ce146c643cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 19/50] fix: PollChange::force_next_poll forces the next poll
 at any time

---
 util/poll_change.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/poll_change.hh b/util/poll_change.hh
index f2264eb..d3b93b0 100644
--- a/util/poll_change.hh
+++ b/util/poll_change.hh
@@ -13,11 +13,12 @@ public:
 	}
 
 	void force_next_poll() {
-		last_update_time = 0;
+		force_poll = true;
 	}
 
 	void poll(unsigned now, bool state) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_poll || now - last_update_time >= update_ticks) {
+			force_poll = false;
 			last_update_time = now;
 
 			if (current_state != state) {
@@ -30,7 +31,8 @@ public:
 	// Defer calling state_func() until poll time has expired.
 	// Useful if checking the state is a heavy operation.
 	void poll(unsigned now, auto state_func) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_poll || now - last_update_time >= update_ticks) {
+			force_poll = false;
 			last_update_time = now;
 
 			bool state = state_func();
@@ -52,6 +54,7 @@ public:
 private:
 	bool current_state = false;
 	bool change_detected = false;
+	bool force_poll = false;
 	unsigned last_update_time = 0;
 	unsigned update_ticks;
 };
-- 
2.43.0


From 4b926d91ec7a37851cb75c77bbcaafde28eae0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 20/50] fix: int_to_str and int_to_str_chop keep zero digits,
 handle INT32_MIN and tiny buffers

---
 util/int_to_str.cc | 64 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..433e993 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -19,8 +19,9 @@ constexpr size_t Log10<1>() {
 }
 
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
+char digit(unsigned &value, unsigned avail, bool &started) {
+	if (value >= Place || started) {
+		started = true;
 		unsigned dig = value / Place;
 		value -= dig * Place;
 		return avail > Log10<Place>() ? '0' + dig : 0;
@@ -42,29 +43,29 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 	unsigned len = 0;
 	if (value < 0) {
 		buf[len++] = '-';
-		value = -value;
 	}
-	unsigned val = value;
+	unsigned val = value < 0 ? 0u - static_cast<unsigned>(value) : value;
+	bool started = false;
 
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
+	if (char dig = digit<100>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
+	if (char dig = digit<10>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
+	if (char dig = digit<1>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
@@ -75,8 +76,9 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 namespace
 {
 template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
+char _digit(unsigned &value, bool &started) {
+	if (value >= Place || started) {
+		started = true;
 		unsigned dig = value / Place;
 		value -= dig * Place;
 		return '0' + dig;
@@ -105,39 +107,41 @@ bool int_to_str(int32_t value, const std::span<char> buf) {
 		if (!buf.size())
 			return false;
 		buf[len++] = '-';
-		value = -value;
 	}
 	if (value == 0) {
+		if (buf.size() < 2)
+			return false;
 		buf[0] = '0';
 		buf[1] = '\0';
 		return true;
 	}
 
-	auto num_dig = num_digits(value);
+	unsigned val = value < 0 ? 0u - static_cast<unsigned>(value) : value;
+	bool started = false;
+
+	auto num_dig = num_digits(val);
 	if ((num_dig + len + 1) > buf.size())
 		return false;
 
-	unsigned val = value;
-
-	if (char dig = _digit<1000000000>(val); dig)
+	if (char dig = _digit<1000000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
+	if (char dig = _digit<100000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
+	if (char dig = _digit<10000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
+	if (char dig = _digit<1000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
+	if (char dig = _digit<100000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
+	if (char dig = _digit<10000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
+	if (char dig = _digit<1000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
+	if (char dig = _digit<100>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
+	if (char dig = _digit<10>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
+	if (char dig = _digit<1>(val, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From 19fe939ba07e015ec994fae1a1343eb1c978cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 21/50] fix: print outputs exactly the characters of a
 string_view

---
 util/print.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..5d5507b 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (char c : str)
+		putc(c);
 }
 
 namespace
-- 
2.43.0


From e84ddada606c34fa7f9c220256368c24a78e600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 22/50] fix: print handles INT32_MIN without overflow

---
 util/print.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index 5d5507b..f018e59 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -51,7 +51,7 @@ void printone(int32_t val) {
 	unsigned uval;
 	if (val < 0) {
 		putc('-');
-		uval = -val;
+		uval = 0u - static_cast<unsigned>(val);
 	} else
 		uval = val;
 
-- 
2.43.0


From 53c9e6cc77cb269758addb72737275b75cdc41bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 23/50] fix: Version parses only the given text, and ignores
 numbers that overflow

---
 util/version_tools.hh | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index e1ef236..49dd1b3 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -46,8 +46,7 @@ struct Version {
 				vers = vers.substr(pos + 1);
 			}
 
-			auto num = strtol(token.data(), nullptr, 10);
-			set_field(i++, num);
+			set_field(i++, parse_field(token));
 
 			if (pos == std::string_view::npos) {
 				// "normal" means not a pre-release, meaning there's no dash after the last number
@@ -57,6 +56,24 @@ struct Version {
 		}
 	}
 
+	// Like strtol(), but reads only the token. Anything over 255 is returned as 256.
+	static unsigned parse_field(std::string_view token) {
+		while (token.size() && (token[0] == ' ' || (token[0] >= '\t' && token[0] <= '\r')))
+			token.remove_prefix(1);
+		if (token.size() && token[0] == '+')
+			token.remove_prefix(1);
+
+		unsigned val = 0;
+		for (char c : token) {
+			if (c < '0' || c > '9')
+				break;
+			val = val * 10 + (c - '0');
+			if (val > 255)
+				return 256;
+		}
+		return val;
+	}
+
 	// A Host is compatible with a plugin that has the same major and less-than-or-equal minor.
 	bool can_host_version(Version other) const {
 		return major == other.major && minor >= other.minor;
-- 
2.43.0


From 6a200e8a3fe5e7a23a7efd3e1102e63f27b24b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 24/50] fix: ReplaceString::replace_all continues after the
 replacement, and terminates for an empty pattern

---
 util/string_util.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/string_util.hh b/util/string_util.hh
index 3cdfbce..1d3171e 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -10,6 +10,9 @@ struct ReplaceString {
 	}
 
 	ReplaceString &replace_all(const std::string str_find, const std::string str_replace) {
+		if (str_find.empty())
+			return *this;
+
 		size_t index = 0;
 		while (true) {
 			index = str.find(str_find, index);
@@ -17,7 +20,7 @@ struct ReplaceString {
 				break;
 			}
 			str.replace(index, str_find.length(), str_replace);
-			index += str_find.length();
+			index += str_replace.length();
 		}
 		return *this;
 	}
-- 
2.43.0


From 3ec3e5a79a63bde6444c7d1f4dffd4ed0a82f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 25/50] fix: OR() starts from an initialised value

---
 util/bitfield.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 9545dc9..1a77451 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -23,7 +23,7 @@ auto constexpr bitfield(const Ts... args) {
 template<typename Enum>
 constexpr std::underlying_type_t<Enum> OR(std::initializer_list<Enum> fields) {
 	using UT = std::underlying_type_t<Enum>;
-	UT val;
+	UT val{};
 	for (auto el : fields) {
 		val |= static_cast<UT>(el);
 	}
-- 
2.43.0


From 276e38d0497ef39203f3a4e363eaaf792432fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 26/50] fix: RectC::x_intersects detects a rectangle that
 contains the other

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 51caf53..9f7aa78 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -29,7 +29,7 @@ struct RectC {
 		return (top >= other.top && top <= other.bottom) || (other.top >= top && other.top <= bottom);
 	}
 	constexpr bool x_intersects(const RectC &other) const {
-		return (left >= other.left && left <= other.right) || (right <= other.right && right >= other.left);
+		return (left >= other.left && left <= other.right) || (other.left >= left && other.left <= right);
 	}
 	constexpr bool is_intersecting(const RectC &other) const {
 		return y_intersects(other) && x_intersects(other);
-- 
2.43.0


From d13ba3d9df32c8c8dfbc1ccf26da9dad97e03fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 27/50] fix: is_poly_concave does not truncate the turn
 direction to an int

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 9f7aa78..a2fd925 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -87,7 +87,7 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 			continue;
 
 		if (sign == 0)
-			sign = cross;
+			sign = cross > 0 ? 1 : -1;
 
 		if ((sign > 0 && cross < 0) || (sign < 0 && cross > 0))
 			return true;
-- 
2.43.0


From d3a01a7b0ab9eef8d3385fe052afb5252b01c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 28/50] fix: AnalyzedSig and PeakMeter find the maximum of
 negative samples

---
 util/analyzed_signal.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From e6a68b3b2b1bcb2f38c464d50fcaa0abf2c9af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 29/50] fix: TriangleOscillator::set_period_ms works below and
 between whole seconds

---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..31a984a 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,7 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		increment_ = static_cast<uint64_t>(freq_units) * 1000 / period_ms;
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From 71e6f597b36b77b9f36cfd5531780412f951a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 30/50] fix: next_power_of_2 handles 64-bit values

---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 082f113..0ac0c71 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -103,7 +103,7 @@ constexpr T next_power_of_2(T value) noexcept {
 	if (value == 0 || value == 1)
 		return 1;
 
-	if (is_power_of_2(value))
+	if ((value & (value - 1)) == 0)
 		return value;
 
 	value |= value >> 1;
-- 
2.43.0


From 4e610c83fd4ec1f5d52fdc02480641d507ee49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 31/50] fix: hysteresis_gate turns on at the turn-on threshold,
 not half way to it

---
 util/math.hh | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 0ac0c71..87e65b0 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -336,11 +336,10 @@ static inline bool is_inf_fastmath(float a) {
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
-	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
-	float feedback = feedback_amt * last_output;
-	float test_signal = new_input + feedback;
-	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
-	return test_signal > threshold ? 1.f : 0.f;
+	if (last_output > 0.5f)
+		return new_input < turn_off_thresh ? 0.f : 1.f;
+	else
+		return new_input > turn_on_thresh ? 1.f : 0.f;
 }
 
 // Apply a hysteresis threshold on a gate signal. Assumes 0.0f = off, 1.0f = on
-- 
2.43.0


From a15885509a35fd16878f9aa3cc435233236444e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 32/50] fix: fixed-point interpolate works for negative and
 large values

---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 87e65b0..c929cd8 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -63,7 +63,7 @@ static_assert(interpolate(1.f, 2.f, 0.25f) == interpolate3(1.f, 2.f, 0.25f));
 
 template<uint32_t PhaseMax>
 inline int32_t interpolate(int32_t in1, int32_t in2, int32_t phase) {
-	return ((in2 * phase) + in1 * (PhaseMax - phase)) / PhaseMax;
+	return (int64_t{in2} * phase + int64_t{in1} * (int64_t{PhaseMax} - phase)) / int64_t{PhaseMax};
 }
 
 template<class T>
-- 
2.43.0


From 9f0c6fcdaf0b4db1405ed95c3d12c5b54f8bbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 33/50] fix: copying or assigning a FunctionSized copies and
 destroys its captures

---
 util/callable.hh | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..f613f36 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -26,13 +26,24 @@ public:
 	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
-		, m_destroy{destroy<Callable>} {
+		, m_manage{manage<Callable>} {
 		new (&m_data[0]) Callable(callable);
 	}
 
+	FunctionSized(FunctionSized const &other) {
+		copy_from(other);
+	}
+
+	FunctionSized &operator=(FunctionSized const &other) {
+		if (this != &other) {
+			clear();
+			copy_from(other);
+		}
+		return *this;
+	}
+
 	~FunctionSized() {
-		if (m_destroy)
-			m_destroy(&m_data[0]);
+		clear();
 	}
 
 	Ret call(Args... args) {
@@ -57,18 +68,35 @@ private:
 			return callable(std::forward<Args>(args)...);
 	}
 
+	// Copies the callable in `other` into `object`, or destroys the callable in `object` if `other` is null
 	template<typename Callable>
-	static void destroy(void *object) {
-		Callable &callable = *reinterpret_cast<Callable *>(object);
-		callable.~Callable();
+	static void manage(void *object, void const *other) {
+		if (other)
+			new (object) Callable(*reinterpret_cast<Callable const *>(other));
+		else
+			reinterpret_cast<Callable *>(object)->~Callable();
+	}
+
+	void copy_from(FunctionSized const &other) {
+		if (other.m_manage)
+			other.m_manage(&m_data[0], &other.m_data[0]);
+		m_callback = other.m_callback;
+		m_manage = other.m_manage;
+	}
+
+	void clear() {
+		if (m_manage)
+			m_manage(&m_data[0], nullptr);
+		m_callback = nullptr;
+		m_manage = nullptr;
 	}
 
 private:
 	using Callback = Ret (*)(void *, Args...);
 	Callback m_callback{};
 
-	using Deleter = void (*)(void *);
-	Deleter m_destroy{};
+	using Manager = void (*)(void *, void const *);
+	Manager m_manage{};
 
 	alignas(uint64_t) uint8_t m_data[buffer_size];
 };
-- 
2.43.0


From d59e73bdf14f60626cc979f07967dc91ec556c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 34/50] fix: Toggler::update_state and transfer_events do not
 drop a rising edge when both edges are pending

---
 util/debouncer.hh         | 2 +-
 util/debouncer_compact.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 2bb28b9..ba5ebb2 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -107,7 +107,7 @@ public:
 		if (other.got_falling_edge_)
 			got_falling_edge_ = true;
 
-		else if (other.got_rising_edge_)
+		if (other.got_rising_edge_)
 			got_rising_edge_ = true;
 
 		is_high_ = other.is_high_;
diff --git a/util/debouncer_compact.hh b/util/debouncer_compact.hh
index 62fabe8..81d96ed 100644
--- a/util/debouncer_compact.hh
+++ b/util/debouncer_compact.hh
@@ -104,7 +104,7 @@ public:
 		if (other.got_falling_edge_)
 			got_falling_edge_ = true;
 
-		else if (other.got_rising_edge_)
+		if (other.got_rising_edge_)
 			got_rising_edge_ = true;
 
 		is_high_ = other.is_high_;
-- 
2.43.0


From d89849a663283ec2e5dec59aea3e7f5c5e195cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 35/50] fix: adding colours saturates on every platform, as
 with __UQADD8

---
 util/colors.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/colors.hh b/util/colors.hh
index f342251..6343fa1 100644
--- a/util/colors.hh
+++ b/util/colors.hh
@@ -5,7 +5,7 @@
 #include "cmsis_gcc.h"
 #define builtin_add_u8(x, y) __UQADD8(x, y)
 #elif defined(__USAT)
-#define builtin_add_u8(x, y) ((x) + (y))
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #else
 static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	if (sat <= 31U) {
@@ -18,7 +18,7 @@ static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	}
 	return (uint32_t)val;
 }
-#define builtin_add_u8(x, y) ((x) + (y))
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #endif
 
 struct Color {
-- 
2.43.0


From 9dc24ee3f69f44926dba98e5a9dd300f7ff1331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 36/50] fix: LED flashes last the given time, also over one
 second and when it is not a whole frequency

---
 util/oscs.hh   | 3 ++-
 util/rgbled.hh | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 31a984a..a4286db 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -197,7 +197,8 @@ struct DownCounter {
 		increment_ = freq * freq_units;
 	}
 	void set_period_ms(uint32_t ms) {
-		increment_ = (float)freq_units / (ms / 1000.f);
+		const float increment = (float)freq_units / (ms / 1000.f);
+		increment_ = increment < (float)max_ ? (uint32_t)increment : max_;
 	}
 	void set_phase(uint32_t phase) {
 		phase_ = phase;
diff --git a/util/rgbled.hh b/util/rgbled.hh
index aa7302a..8dca4cb 100644
--- a/util/rgbled.hh
+++ b/util/rgbled.hh
@@ -31,8 +31,7 @@ struct MixedRgbLed {
 	void flash_once_ms(Color const &c, float ms) {
 		flash_color_ = c;
 		flasher_.reset();
-		flasher_.set_frequency(1000.f / ms);
-		// flasher_.set_period_ms(ms);
+		flasher_.set_period_ms(ms);
 		do_smooth_fade_ = false;
 	}
 
-- 
2.43.0


From 317d6167364b20973ddbc87678c9f2bb874b2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 37/50] fix: Debouncer masks the comparison, not the history,
 so masks may have holes

---
 util/debouncer.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index ba5ebb2..42f3711 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -170,10 +170,10 @@ struct Debouncer : Toggler {
 	}
 
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
-		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
+		debounce_state_ = (debounce_state_ << 1) | new_state;
+		if ((debounce_state_ & StateMask) == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
-		} else if (debounce_state_ == (FallingEdgePattern & StateMask)) {
+		} else if ((debounce_state_ & StateMask) == (FallingEdgePattern & StateMask)) {
 			register_falling_edge();
 		} else {
 			if constexpr (!DebounceRawState)
@@ -191,11 +191,11 @@ template<unsigned RisingEdgePattern = 0x00000001,
 		 bool DebounceRawState = false>
 struct DebouncerCounter : Toggler {
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
-		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
+		debounce_state_ = (debounce_state_ << 1) | new_state;
+		if ((debounce_state_ & StateMask) == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
 			steady_state_ctr = 0;
-		} else if (debounce_state_ == (FallingEdgePattern & StateMask)) {
+		} else if ((debounce_state_ & StateMask) == (FallingEdgePattern & StateMask)) {
 			register_falling_edge();
 			steady_state_ctr = 0;
 		} else {
-- 
2.43.0


From fe5c70eaeb5dcb10ac8b435f3596359db9f7238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 38/50] fix: FilteredInterpArray reads the data of every ready
 mark it consumes, also on weakly ordered memory

---
 util/filtered_interp_array.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/util/filtered_interp_array.hh b/util/filtered_interp_array.hh
index 31198ef..546b16c 100644
--- a/util/filtered_interp_array.hh
+++ b/util/filtered_interp_array.hh
@@ -25,9 +25,7 @@ struct FilteredInterpArray {
 	// and set it as the new interpolation target.
 	// read_fn: (unsigned i) -> T
 	void add_new_readings(auto read_fn) {
-		if (_new_data_ready) {
-			_new_data_ready = false;
-
+		if (_new_data_ready.exchange(false)) {
 			if (_update_count > 0)
 				_num_updates = _update_count;
 
-- 
2.43.0


From a1783d4dc248d1a9c1bfef949ba4701121127b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 39/50] fix: AudioFrame::scaleOutput saturates for every sample
 width, instead of only 24 bits

---
 util/audio_frame.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index ad9b394..84105f7 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -35,16 +35,18 @@ public:
 		if constexpr (std::is_signed_v<SampleType>) {
 
 			if constexpr (kSampleTypeBits > UsedBits) {
-				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, 24);
+				auto v = static_cast<SampleType>(MathTools::constrain(val, -1.f, 1.f) * kOutScaling);
+				return MathTools::signed_saturate(v, UsedBits);
 			} else {
-				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
-				return static_cast<SampleType>(v * kOutScaling);
+				const float v = MathTools::constrain(val, -1.f, 1.f) * kOutScaling;
+				return v < kOutScaling ? static_cast<SampleType>(v) : static_cast<SampleType>(kMaxValue - 1);
 			}
 
 		} else {
 			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
-			return v * (MathTools::ipow(2, UsedBits) - 1);
+			constexpr unsigned max = MathTools::ipow(2, UsedBits) - 1;
+			const float scaled = v * max;
+			return scaled < static_cast<float>(max) ? static_cast<SampleType>(scaled) : static_cast<SampleType>(max);
 		}
 	}
 
-- 
2.43.0


From d0c8a0c158b3cc787a96ec52ddbeabfd3f153701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 40/50] fix: AudioFrame::sign_extend does not read past a
 sample narrower than an int

---
 util/audio_frame.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index 84105f7..36d8b61 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -58,7 +58,7 @@ public:
 			using S = struct {
 				signed Val : UsedBits;
 			};
-			return reinterpret_cast<const S *>(&v)->Val;
+			return S{static_cast<int>(v)}.Val;
 		}
 	}
 };
-- 
2.43.0


From e7cf9bac261f287eb21dee8f2e7381c444a32a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 41/50] fix: RGB565 clamps float channels before converting
 them, so negative values do not wrap to full

---
 util/colors_rgb565.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/colors_rgb565.hh b/util/colors_rgb565.hh
index 51f538a..04f0adc 100644
--- a/util/colors_rgb565.hh
+++ b/util/colors_rgb565.hh
@@ -22,9 +22,9 @@ struct RGB565 {
 	}
 
 	constexpr RGB565(float red, float green, float blue)
-		: b(std::clamp<uint16_t>(blue * 32.f, 0, 31))
-		, g(std::clamp<uint16_t>(green * 64.f, 0, 63))
-		, r(std::clamp<uint16_t>(red * 32.f, 0, 31)) {
+		: b(std::clamp(blue * 32.f, 0.f, 31.f))
+		, g(std::clamp(green * 64.f, 0.f, 63.f))
+		, r(std::clamp(red * 32.f, 0.f, 31.f)) {
 	}
 
 	constexpr RGB565(uint32_t rgb888)
-- 
2.43.0


From 7e10395fcad2c00203a26661b73ff7dfac7a1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 42/50] fix: AlignedAllocator does not return too small a block
 when the size overflows

---
 util/aligned_allocator.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..fbd37b1 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -16,6 +16,9 @@ public:
 		if (n == 0)
 			return nullptr;
 
+		if (n > (static_cast<std::size_t>(-1) - Alignment) / sizeof(T))
+			return nullptr;
+
 		std::size_t size = n * sizeof(T);
 		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;
 
-- 
2.43.0


From dc4e906b50f677129a2c9e38cc480ddf98acf404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 43/50] fix: InterpArray's wrapping lookups wrap negative
 phases too, so sin(), cos() and tan() work for them

---
 util/interp_array.hh | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/util/interp_array.hh b/util/interp_array.hh
index bac2409..9a49971 100644
--- a/util/interp_array.hh
+++ b/util/interp_array.hh
@@ -23,6 +23,16 @@ struct InterpArray {
 
 	// Return an interpolated value where index = 0 and index = Size are the first element
 	constexpr T interp_by_index_wrap(const PhaseT index) const {
+		if (index < 0) {
+			// Count down from the end
+			auto from_end = static_cast<unsigned int>(-index);
+			const auto back_phase = -index - static_cast<PhaseT>(from_end);
+			from_end %= Size;
+			const unsigned int upper = from_end == 0 ? 0 : Size - from_end;
+			const unsigned int lower = upper == 0 ? Size - 1 : upper - 1;
+			return (data[lower] * back_phase) + (data[upper] * ((PhaseT)(1.) - back_phase));
+		}
+
 		unsigned int idx0 = static_cast<unsigned int>(index);
 		const auto phase = index - static_cast<PhaseT>(idx0);
 		while (idx0 >= Size)
@@ -64,7 +74,17 @@ struct InterpArray {
 	// Todo: this is really "floor" not "closest" (it doesn't round)
 	// phase = 0 and phase = 1, 2, 3.. return first element
 	constexpr T closest_wrap(const PhaseT phase) const {
-		auto idx = static_cast<unsigned int>(phase * Size);
+		const auto index = phase * Size;
+		if (index < 0) {
+			// Count down from the end
+			auto from_end = static_cast<unsigned int>(-index);
+			if (static_cast<PhaseT>(from_end) < -index)
+				from_end++;
+			from_end %= Size;
+			return data[from_end == 0 ? 0 : Size - from_end];
+		}
+
+		auto idx = static_cast<unsigned int>(index);
 		while (idx >= Size)
 			idx -= Size;
 		return data[idx];
-- 
2.43.0


From b3355b00bb0cfce25731b7bf45e3041d38cff25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 44/50] fix: pow2 works for negative values, and returns for
 very large ones

---
 util/math.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index c929cd8..be5eda5 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -272,10 +272,13 @@ static inline constexpr float audioFreqToNorm(float input) // normalized filter
 
 // Returns 2^x
 static inline constexpr float pow2(float x) {
-	x = x / 5.0f;
+	x = constrain(x, -150.f, 129.f) / 5.0f;
 	float res = 1.f;
 	for (;;) {
-		if (x < 1.f) {
+		if (x < 0.f) {
+			res /= 32.f;
+			x += 1.f;
+		} else if (x < 1.f) {
 			// Note: exp5Table.interp(x) = 2^(x*5), where 0 <= x <= 1
 			res *= exp5Table.interp(x);
 			break;
-- 
2.43.0


From 616d4c34a51cb0cc547cbc7cf44e73fd186d6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 45/50] fix: SmallestSignedInt accepts the largest and smallest
 64-bit values

---
 util/smallest_integer.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/smallest_integer.hh b/util/smallest_integer.hh
index fe79090..44b0249 100644
--- a/util/smallest_integer.hh
+++ b/util/smallest_integer.hh
@@ -18,7 +18,8 @@ template<int64_t min_val, int64_t max_val>
 requires(min_val <= max_val)
 struct SmallestSignedInt {
 	using type =
-		std::make_signed_t<typename SmallestUnsignedInt<(max_val >= -min_val ? max_val : -min_val - 1) << 1>::type>;
+		std::make_signed_t<typename SmallestUnsignedInt<
+			static_cast<uint64_t>(max_val >= -(min_val + 1) ? max_val : -(min_val + 1)) << 1>::type>;
 };
 
 static_assert(std::is_same_v<SmallestUnsignedInt<0>::type, uint8_t>);
-- 
2.43.0


From 654afb0dbc386e785a86a206ad000baa2009b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 46/50] fix: soft vmlaq_f32 takes its accumulator by value,
 like the intrinsic it stands in for

---
 util/soft_neon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/soft_neon.hh b/util/soft_neon.hh
index beb47c3..e1286ed 100644
--- a/util/soft_neon.hh
+++ b/util/soft_neon.hh
@@ -39,7 +39,7 @@ inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) {
 	};
 }
 
-inline float32x4_t vmlaq_f32(float32x4_t &dst, float32x4_t a, float32x4_t b) {
+inline float32x4_t vmlaq_f32(float32x4_t dst, float32x4_t a, float32x4_t b) {
 	dst.v[0] += a.v[0] * b.v[0];
 	dst.v[1] += a.v[1] * b.v[1];
 	dst.v[2] += a.v[2] * b.v[2];
-- 
2.43.0


From 0a2d12d5aea09b51776d5913dd79135cc1016300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 47/50] fix: PaddedAligned could not be read by conversion to
 its type (ambiguous), nor when const

---
 util/padded_aligned.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/padded_aligned.hh b/util/padded_aligned.hh
index 74d6a16..58b4303 100644
--- a/util/padded_aligned.hh
+++ b/util/padded_aligned.hh
@@ -19,7 +19,7 @@ struct PaddedAligned {
 		return data;
 	}
 
-	operator T const &() {
+	operator T const &() const {
 		return data;
 	}
 
-- 
2.43.0


From 31548a7ed0a74a863e01a0be486849b7c54dbf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 48/50] fix: RotaryMotion::add_motion of itself advanced the
 position twice the motion

---
 util/rotary_motion.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/rotary_motion.hh b/util/rotary_motion.hh
index 1cd6774..703b591 100644
--- a/util/rotary_motion.hh
+++ b/util/rotary_motion.hh
@@ -14,8 +14,9 @@ struct RotaryMotion {
 
 	// Add motion to this
 	void add_motion(const RotaryMotion &that) {
-		motion += that.motion;
-		abs_pos += that.motion;
+		auto that_motion = that.motion;
+		motion += that_motion;
+		abs_pos += that_motion;
 	}
 
 	// Move motion from that to this
-- 
2.43.0


From 2e0aa573dd643e60a76e22dee0ac3bf660b1ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 49/50] fix: ThreadSafePool: the const operator[] did not
 compile

---
 util/thread_safe_pool.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/thread_safe_pool.hh b/util/thread_safe_pool.hh
index 87b84ac..08b950d 100644
--- a/util/thread_safe_pool.hh
+++ b/util/thread_safe_pool.hh
@@ -62,7 +62,7 @@ public:
 		return data[idx];
 	}
 
-	T &operator[](size_t idx) const {
+	const T &operator[](size_t idx) const {
 		return data[idx];
 	}
 };
-- 
2.43.0


From 86a39d91b2e6487979d2eb0a7739dab8f7b9f9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:18 +0000
Subject: [PATCH 50/50] fix: copies of a BigBuffer shared its block and freed
 it twice

---
 util/big_buffer.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/big_buffer.hh b/util/big_buffer.hh
index 9a77253..154d8fe 100644
--- a/util/big_buffer.hh
+++ b/util/big_buffer.hh
@@ -14,6 +14,14 @@ struct BigBuffer : BigHeapAllocation {
 	BigBuffer() {
 		data = new T;
 	}
+	BigBuffer(const BigBuffer &other)
+		: BigHeapAllocation(other)
+		, data{new T(*other.data)} {
+	}
+	BigBuffer &operator=(const BigBuffer &other) {
+		*data = *other.data;
+		return *this;
+	}
 	~BigBuffer() {
 		delete data;
 	}
-- 
2.43.0

