From 545117257c0d19da4d1923b1b82b9c4bbde260c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:44 +0000
Subject: [PATCH 01/16] fix: a failing ThreadPool worker no longer leaves its
 successors waiting forever

---
 include/chia/ThreadPool.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/chia/ThreadPool.h b/include/chia/ThreadPool.h
index d36dc03..8cfec87 100644
--- a/include/chia/ThreadPool.h
+++ b/include/chia/ThreadPool.h
@@ -19,6 +19,7 @@ class ThreadPool : public Processor<T> {
 private:
 	struct thread_t {
 		uint64_t job = -1;
+		bool is_fail = false;
 		std::mutex mutex;
 		std::condition_variable signal;
 		std::shared_ptr<Thread<T>> thread;
@@ -39,7 +40,7 @@ public:
 		}
 		for(int i = 0; i < num_threads; ++i) {
 			threads[i]->thread = std::make_shared<Thread<T>>(
-					std::bind(&ThreadPool::wrapper, this,
+					std::bind(&ThreadPool::process, this,
 							threads[i].get(),
 							threads[((i + num_threads) - 1) % num_threads].get(),
 							std::placeholders::_1),
@@ -99,6 +100,20 @@ public:
 	}
 	
 private:
+	void process(thread_t* state, thread_t* prev, T& input)
+	{
+		try {
+			wrapper(state, prev, input);
+		} catch(...) {
+			{
+				std::lock_guard<std::mutex> lock(state->mutex);
+				state->is_fail = true;
+			}
+			state->signal.notify_all();		// release next thread, it would wait forever otherwise
+			throw;
+		}
+	}
+	
 	void wrapper(thread_t* state, thread_t* prev, T& input)
 	{
 		uint64_t job = -1;
@@ -111,6 +126,9 @@ private:
 		{
 			std::unique_lock<std::mutex> lock(prev->mutex);
 			while(prev->job < job) {
+				if(prev->is_fail) {
+					throw std::runtime_error("previous thread failed");
+				}
 				prev->signal.wait(lock);
 			}
 		}
-- 
2.43.0


From 6af9eccf96ab3cfc71529808a16376484cae3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:34 +0000
Subject: [PATCH 02/16] fix: do not match against a missing bucket when the
 lowest bucket of a table has index 1

compute_matches() starts with both bucket indices at zero, so a left table whose
smallest entry lies in bucket 1 was taken for a pair of adjacent buckets although
there is no left bucket, and a null pointer was dereferenced.
---
 include/chia/phase1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase1.hpp b/include/chia/phase1.hpp
index c2d0db1..c206e9e 100644
--- a/include/chia/phase1.hpp
+++ b/include/chia/phase1.hpp
@@ -364,7 +364,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 					throw std::logic_error("input not sorted");
 				}
 				if(index > L_index[0]) {
-					if(L_index[1] + 1 == L_index[0]) {
+					if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 						match_input_t pair;
 						pair.L_offset = L_offset;
 						pair.L_bucket = L_bucket;
@@ -397,7 +397,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 	read_thread.close();
 	match_pool.close();
 	
-	if(L_index[1] + 1 == L_index[0]) {
+	if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 		FxMatcher<T> Fx;
 		std::vector<match_t<T>> matches;
 		num_found += Fx.find_matches(L_offset[1], *L_bucket[1], *L_bucket[0], matches);
-- 
2.43.0


From 29b0a946614212070c4acae261d34958edb5c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:04 +0000
Subject: [PATCH 03/16] fix: line point merge no longer misses the last left
 block when the input ends concurrently

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..8f29a86 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,6 +120,7 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool is_end = false;
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
@@ -138,9 +139,10 @@ void compute_stage1(int L_index, int num_threads,
 								break;
 							}
 						}
+						is_end = L_is_end;		// everything has been copied if set
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
+					if(is_end) {
 						break;
 					}
 				}
-- 
2.43.0


From 74c53bb756d19f559aa549cf1020f0c298cafa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:35 +0000
Subject: [PATCH 04/16] fix: never compress deltas which have no symbol in the
 table

---
 include/chia/encoding.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/chia/encoding.hpp b/include/chia/encoding.hpp
index df76438..1ee7cbe 100644
--- a/include/chia/encoding.hpp
+++ b/include/chia/encoding.hpp
@@ -197,6 +197,15 @@ public:
         }
 
         FSE_CTable *ct = tmCache.CTGet(R);
+
+        // a symbol which is not in the table cannot be compressed (second U16 is maxSymbolValue)
+        uint16_t header[2];
+        memcpy(header, ct, sizeof(header));
+        for (auto delta : deltas) {
+            if (delta > header[1]) {
+                return 0;
+            }
+        }
         return FSE_compress_usingCTable(
             out, deltas.size() * 8, static_cast<void *>(deltas.data()), deltas.size(), ct);
     }
-- 
2.43.0


From aa59f3e7ce4367f9441f437554edb8d501247607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:48 +0000
Subject: [PATCH 05/16] fix: park overflow is detected before writing past the
 park buffer

---
 include/chia/phase3.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 8f29a86..c92f27a 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -302,8 +302,14 @@ void WritePark(
     // be small, so we can compress them
     const double R = kRValues[table_index - 1];
     uint8_t* deltas_start = index + 2;
-    size_t deltas_size = Encoding::ANSEncodeDeltas(park_deltas, R, deltas_start);
+    std::vector<uint8_t> deltas_buffer(park_deltas.size() * 8);
+    size_t deltas_size = Encoding::ANSEncodeDeltas(park_deltas, R, deltas_buffer.data());
 
+    // check before writing to park_buffer
+    const size_t num_bytes = deltas_size ? deltas_size : park_deltas.size();
+    if ((uint64_t)(deltas_start - park_buffer) + num_bytes > park_buffer_size) {
+        throw std::logic_error("Overflowed park buffer");
+    }
     if (!deltas_size) {
         // Uncompressed
         deltas_size = park_deltas.size();
@@ -312,6 +318,7 @@ void WritePark(
     } else {
         // Compressed
         Util::IntToTwoBytesLE(index, deltas_size);
+        memcpy(deltas_start, deltas_buffer.data(), deltas_size);
     }
     index += 2 + deltas_size;
 
-- 
2.43.0


From 9c15c321cf6f7677a663ae2084729d7bbb0c258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:19 +0000
Subject: [PATCH 06/16] fix: last C3 park is written completely when it has
 less than 3 deltas

---
 include/chia/phase4.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..ef86d2f 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -122,6 +122,9 @@ uint64_t compute(	FILE* plot_file,
 			write_data_t tmp;
 			tmp.offset = park.offset;
 			tmp.buffer.resize(C3_size);
+			while(park.deltas.size() < 3) {
+				park.deltas.push_back(0);	// less than 3 deltas cannot be encoded, missing ones are read as zero
+			}
 			const size_t num_bytes =
 					Encoding::ANSEncodeDeltas(park.deltas, kC3R, tmp.buffer.data() + 2);
 			
@@ -199,7 +202,7 @@ uint64_t compute(	FILE* plot_file,
     }
     final_file_writer_3 += P7_park_size;
 
-    if(!park_deltas.deltas.empty()) {
+    if(num_C1_entries > 0) {
     	park_deltas.offset = begin_byte_C3 + (num_C1_entries - 1) * C3_size;
 		park_threads.take(park_deltas);
     }
-- 
2.43.0


From dccb123bb6f0bcd5d283c1e1026ea57ca7a763b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:19 +0000
Subject: [PATCH 07/16] fix: final value deltas which cannot be stored in a C3
 park are refused

---
 include/chia/phase4.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index ef86d2f..177f804 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -128,6 +128,9 @@ uint64_t compute(	FILE* plot_file,
 			const size_t num_bytes =
 					Encoding::ANSEncodeDeltas(park.deltas, kC3R, tmp.buffer.data() + 2);
 			
+			if(!num_bytes) {
+				throw std::logic_error("C3 deltas cannot be encoded");
+			}
 			if(num_bytes + 2 > C3_size) {
 				throw std::logic_error("C3 overflow");
 			}
@@ -184,6 +187,9 @@ uint64_t compute(	FILE* plot_file,
 				num_C1_entries++;
 			}
 			else {
+				if(entry_y - prev_y >= 256) {
+					throw std::logic_error("C3 delta >= 256 (" + std::to_string(entry_y - prev_y) + ")");
+				}
 				park_deltas.deltas.push_back(entry_y - prev_y);
 			}
 			prev_y = entry_y;
-- 
2.43.0


From 7f6c310fb1d3502e553d04c8568f25bfdcdc9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:02 +0000
Subject: [PATCH 08/16] fix: C3 park overflow is detected before writing past
 the buffer

---
 include/chia/phase4.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 177f804..d859982 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -121,10 +121,10 @@ uint64_t compute(	FILE* plot_file,
 		[C3_size](park_deltas_t& park, std::vector<write_data_t>& out, size_t&) {
 			write_data_t tmp;
 			tmp.offset = park.offset;
-			tmp.buffer.resize(C3_size);
 			while(park.deltas.size() < 3) {
 				park.deltas.push_back(0);	// less than 3 deltas cannot be encoded, missing ones are read as zero
 			}
+			tmp.buffer.resize(C3_size + park.deltas.size() * 8);	// cut to C3_size below
 			const size_t num_bytes =
 					Encoding::ANSEncodeDeltas(park.deltas, kC3R, tmp.buffer.data() + 2);
 			
@@ -134,6 +134,7 @@ uint64_t compute(	FILE* plot_file,
 			if(num_bytes + 2 > C3_size) {
 				throw std::logic_error("C3 overflow");
 			}
+			tmp.buffer.resize(C3_size);
 			Util::IntToTwoBytes(tmp.buffer.data(), num_bytes);	// Write the size
 			out.emplace_back(std::move(tmp));
 		}, &plot_write, std::max(num_threads / 2, 1), "phase4/C3");
-- 
2.43.0


From 7713090d86e4c1fd4ad90cdb8f7bc42118149537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:46 +0000
Subject: [PATCH 09/16] fix: copy_file() reports a read error instead of taking
 it for the end of the file

---
 include/chia/copy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..5ab4271 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -37,6 +37,12 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 	std::vector<uint8_t> buffer(g_read_chunk_size * 16);
 	while(true) {
 		const auto num_bytes = fread(buffer.data(), 1, buffer.size(), src);
+		if(num_bytes < buffer.size() && ferror(src)) {
+			const auto err = errno;
+			fclose(src);
+			fclose(dst);
+			throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+		}
 		if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {
 			const auto err = errno;
 			fclose(src);
-- 
2.43.0


From d4c6be678f8a58c875b97c0b8c38bc28aef8f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:52 +0000
Subject: [PATCH 10/16] fix: final_copy() keeps the source until the plot has
 its final name and reports a failed rename

---
 include/chia/copy.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 5ab4271..b58dd0f 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,12 +70,14 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	if(rename(src_path.c_str(), dst_path.c_str())) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
+		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+			throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
+		}
+		remove(src_path.c_str());
 	}
-	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
 	return total_bytes;
 }
 
-- 
2.43.0


From 6804aafcf2b967791aa2e6168919f369bca6c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:08 +0000
Subject: [PATCH 11/16] fix: phase 4 reports a failed close or rename of the
 plot file

---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index d859982..7991076 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -268,12 +268,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From 2ba389945249c07b4ddae56b33374320603c835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:08 +0000
Subject: [PATCH 12/16] fix: a plot header which cannot be written is reported

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index c92f27a..f09605d 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -262,7 +262,9 @@ uint32_t WriteHeader(
 	uint8_t pointers[10 * 8] = {};
 	num_bytes += fwrite((pointers), 8, 10, file) * 8;
 
-	fflush(file);
+	if(fflush(file) || ferror(file)) {
+		throw std::runtime_error("failed to write plot header: " + std::string(std::strerror(errno)));
+	}
 	std::cout << "Wrote plot header with " << num_bytes << " bytes" << std::endl;
 	return num_bytes;
 }
-- 
2.43.0


From 425e91e313a483158396c450157ec163a469d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:58 +0000
Subject: [PATCH 13/16] fix: files of the open file limit check are removed
 when the limit is too low

---
 src/chia_plot.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index df75a17..e30e09a 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -469,15 +469,18 @@ int main(int argc, char** argv)
 			if(auto file = fopen(path.c_str(), "wb")) {
 				files.emplace_back(file, path);
 			} else {
-				std::cout << "Cannot open at least " << num_files_max
-						<< " files, please raise maximum open file limit in OS." << std::endl;
-				return -2;
+				break;
 			}
 		}
 		for(const auto& entry : files) {
 			fclose(entry.first);
 			remove(entry.second.c_str());
 		}
+		if(int(files.size()) < num_files_max) {
+			std::cout << "Cannot open at least " << num_files_max
+					<< " files, please raise maximum open file limit in OS." << std::endl;
+			return -2;
+		}
 	}
 
 	if(num_plots > 1 || num_plots < 0) {
-- 
2.43.0


From da4bae9a556b19734588eb795a6aafae2cd9bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:16 +0000
Subject: [PATCH 14/16] fix: keys and plot ids which are not hex strings are
 refused

---
 include/chia/util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/util.hpp b/include/chia/util.hpp
index 5e563a2..7febbcb 100644
--- a/include/chia/util.hpp
+++ b/include/chia/util.hpp
@@ -383,6 +383,9 @@ int64_t get_wall_time_micros() {
 inline
 std::vector<uint8_t> hex_to_bytes(const std::string& hex)
 {
+	if(hex.length() % 2 || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+		return {};		// not a hex string
+	}
 	std::vector<uint8_t> result;
 	for(size_t i = 0; i < hex.length(); i += 2) {
 		const std::string byteString = hex.substr(i, 2);
-- 
2.43.0


From 8f5edd0d4d996665cffe948efcba544523ec113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:38 +0000
Subject: [PATCH 15/16] fix: sorting works with more buckets than the square
 root of the key range

With 2 * log_num_buckets larger than the number of key bits (e.g. -k 16 -u 512)
DiskSort threw a logic_error when reading the first bucket, after all of the
table was computed and written, leaving all temporary files behind.
---
 include/chia/DiskSort.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/chia/DiskSort.hpp b/include/chia/DiskSort.hpp
index 4df7c78..864cec4 100644
--- a/include/chia/DiskSort.hpp
+++ b/include/chia/DiskSort.hpp
@@ -189,10 +189,7 @@ void DiskSort<T, Key>::read_bucket(	std::pair<size_t, size_t>& index,
 	auto& bucket = buckets[index.first];
 	bucket.open("rb");
 	
-	const int key_shift = bucket_key_shift - log_num_buckets;
-	if(key_shift < 0) {
-		throw std::logic_error("key_shift < 0");
-	}
+	const int key_shift = std::max(bucket_key_shift - log_num_buckets, 0);
 	std::unordered_map<size_t, std::vector<T>> table;
 	table.reserve(size_t(1) << log_num_buckets);
 	
-- 
2.43.0


From 4fe72112eba212f30070b3d5c212f4fe1c676979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:53 +0000
Subject: [PATCH 16/16] fix: a thread multiplier below one is refused

With -K 0 (or negative) phase 1 was computed before phase 2 failed with
"num_threads < 1", leaving all temporary files behind.
---
 src/chia_plot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index e30e09a..2b90a0b 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -396,6 +396,10 @@ int main(int argc, char** argv)
 		std::cout << "Invalid threads parameter: " << num_threads << " (supported: [1..1024])" << std::endl;
 		return -2;
 	}
+	if(phase2::g_thread_multi < 1) {
+		std::cout << "Invalid thread multiplier -K: " << phase2::g_thread_multi << " (needs to be at least 1)" << std::endl;
+		return -2;
+	}
 	if(log_num_buckets < 4 || log_num_buckets > 16) {
 		std::cout << "Invalid buckets parameter -u: 2^" << log_num_buckets << " (supported: 2^[4..16])" << std::endl;
 		return -2;
-- 
2.43.0

