From 6a3dd05bd79d3aa9185d8870c9746666ef337256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 01/12] fix: copy_file() takes a read error for the end of the
 file

---
 include/chia/copy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..f7632e3 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -48,8 +48,14 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 			break;
 		}
 	}
+	const bool is_fail = ferror(src);
+	const auto err = errno;
 	fclose(src);
 
+	if(is_fail) {
+		fclose(dst);
+		throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+	}
 	if(fclose(dst)) {
 		throw std::runtime_error("fclose() failed on " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
 	}
-- 
2.43.0


From 737b25305b5c13a8009701578a1ce9a9abe31b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 02/12] fix: final_copy() removes the source before the
 destination is in place

---
 include/chia/copy.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index f7632e3..5c4f7ac 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,12 +70,14 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	if(rename(src_path.c_str(), dst_path.c_str())) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
+		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+			throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
+		}
+		remove(src_path.c_str());
 	}
-	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
 	return total_bytes;
 }
 
-- 
2.43.0


From 94a6d2872c541ed84733d0a4998da57fe8126b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 03/12] fix: DiskTable::close() ignores a failed fclose()

---
 include/chia/DiskTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/chia/DiskTable.h b/include/chia/DiskTable.h
index 2ed6b1d..5bb47fe 100644
--- a/include/chia/DiskTable.h
+++ b/include/chia/DiskTable.h
@@ -116,8 +116,11 @@ public:
 	void close() {
 		if(file_out) {
 			flush();
-			fclose(file_out);
+			FILE* file = file_out;
 			file_out = nullptr;
+			if(fclose(file)) {
+				throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+			}
 		}
 	}
 	
-- 
2.43.0


From cab4eb189d43cd3ad624185301f78ab033ca16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 04/12] fix: phase 4 ignores failures to close and rename the
 plot file

---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..681d8bb 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -258,12 +258,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From af3c3693c744f770a5baf5e23c108d29f9a12ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 05/12] fix: WriteHeader() ignores failed writes

---
 include/chia/phase3.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..195c72e 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -242,25 +242,27 @@ uint32_t WriteHeader(
 	const std::string header_text = "Proof of Space Plot";
 	
 	size_t num_bytes = 0;
-	num_bytes += fwrite(header_text.c_str(), 1, header_text.size(), file);
-	num_bytes += fwrite((id), 1, kIdLen, file);
+	num_bytes += fwrite_ex(file, header_text.c_str(), header_text.size());
+	num_bytes += fwrite_ex(file, id, kIdLen);
 
 	uint8_t k_buffer[1] = {k};
-	num_bytes += fwrite((k_buffer), 1, 1, file);
+	num_bytes += fwrite_ex(file, k_buffer, 1);
 
 	uint8_t size_buffer[2];
 	Util::IntToTwoBytes(size_buffer, kFormatDescription.size());
-	num_bytes += fwrite((size_buffer), 1, 2, file);
-	num_bytes += fwrite(kFormatDescription.c_str(), 1, kFormatDescription.size(), file);
+	num_bytes += fwrite_ex(file, size_buffer, 2);
+	num_bytes += fwrite_ex(file, kFormatDescription.c_str(), kFormatDescription.size());
 
 	Util::IntToTwoBytes(size_buffer, memo_len);
-	num_bytes += fwrite((size_buffer), 1, 2, file);
-	num_bytes += fwrite((memo), 1, memo_len, file);
+	num_bytes += fwrite_ex(file, size_buffer, 2);
+	num_bytes += fwrite_ex(file, memo, memo_len);
 
 	uint8_t pointers[10 * 8] = {};
-	num_bytes += fwrite((pointers), 8, 10, file) * 8;
+	num_bytes += fwrite_ex(file, pointers, sizeof(pointers));
 
-	fflush(file);
+	if(fflush(file)) {
+		throw std::runtime_error("fflush() failed");
+	}
 	std::cout << "Wrote plot header with " << num_bytes << " bytes" << std::endl;
 	return num_bytes;
 }
-- 
2.43.0


From 6e6c35519008529a70c8ebdd61ba41b9fbc1c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 06/12] fix: phase 3 merge may miss the last input buffer when
 the end of input is signalled while it copies

---
 include/chia/phase3.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 195c72e..920e28f 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,10 +120,11 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool do_wait = true;
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
-							bool do_wait = true;
+							do_wait = true;
 							for(auto& buffer : L_input) {
 								if(buffer.offset >= L_buffer.offset + L_buffer.new_pos.size()) {
 									L_buffer.new_pos.insert(L_buffer.new_pos.end(),
@@ -140,8 +141,8 @@ void compute_stage1(int L_index, int num_threads,
 						}
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
-						break;
+					if(do_wait) {
+						break;		// end of input, and nothing new was copied
 					}
 				}
 				if(std::max(pos[0], pos[1]) >= L_buffer.new_pos.size()) {
-- 
2.43.0


From 8bd42b4299c044082ea1609104d1cb52b88949af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 07/12] fix: compute_matches() uses a null bucket when the
 first group is empty and the second is not

---
 include/chia/phase1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase1.hpp b/include/chia/phase1.hpp
index c2d0db1..c206e9e 100644
--- a/include/chia/phase1.hpp
+++ b/include/chia/phase1.hpp
@@ -364,7 +364,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 					throw std::logic_error("input not sorted");
 				}
 				if(index > L_index[0]) {
-					if(L_index[1] + 1 == L_index[0]) {
+					if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 						match_input_t pair;
 						pair.L_offset = L_offset;
 						pair.L_bucket = L_bucket;
@@ -397,7 +397,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 	read_thread.close();
 	match_pool.close();
 	
-	if(L_index[1] + 1 == L_index[0]) {
+	if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 		FxMatcher<T> Fx;
 		std::vector<match_t<T>> matches;
 		num_found += Fx.find_matches(L_offset[1], *L_bucket[1], *L_bucket[0], matches);
-- 
2.43.0


From 2d2ff37b2a64488edfe465acb595b67a9dc3731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 08/12] fix: ANSEncodeDeltas() encodes symbols outside of its
 table

---
 include/chia/encoding.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/encoding.hpp b/include/chia/encoding.hpp
index df76438..852ed61 100644
--- a/include/chia/encoding.hpp
+++ b/include/chia/encoding.hpp
@@ -197,6 +197,12 @@ public:
         }
 
         FSE_CTable *ct = tmCache.CTGet(R);
+        const unsigned maxSymbolValue = reinterpret_cast<const uint16_t *>(ct)[1];
+        for (const auto delta : deltas) {
+            if (delta > maxSymbolValue) {
+                throw std::invalid_argument("delta > maxSymbolValue");
+            }
+        }
         return FSE_compress_usingCTable(
             out, deltas.size() * 8, static_cast<void *>(deltas.data()), deltas.size(), ct);
     }
-- 
2.43.0


From f7ef08b4b2f25e1f7765b49ad2a15efcf676aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 09/12] fix: phase 4 truncates f7 deltas above 255

---
 include/chia/phase4.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 681d8bb..5706937 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -181,7 +181,11 @@ uint64_t compute(	FILE* plot_file,
 				num_C1_entries++;
 			}
 			else {
-				park_deltas.deltas.push_back(entry_y - prev_y);
+				const uint64_t delta = entry_y - prev_y;
+				if(delta > 255) {
+					throw std::logic_error("C3 delta > 255");
+				}
+				park_deltas.deltas.push_back(delta);
 			}
 			prev_y = entry_y;
 			index++;
-- 
2.43.0


From 4d7d84ce15969e5f198f0d484dff2b6f4377ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 10/12] fix: WritePark() writes past the park before it reports
 the overflow

---
 include/chia/phase3.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 920e28f..976e930 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -303,24 +303,29 @@ void WritePark(
     // be small, so we can compress them
     const double R = kRValues[table_index - 1];
     uint8_t* deltas_start = index + 2;
-    size_t deltas_size = Encoding::ANSEncodeDeltas(park_deltas, R, deltas_start);
+    std::vector<uint8_t> deltas_buffer(park_deltas.size() * 8);
+    size_t deltas_size = Encoding::ANSEncodeDeltas(park_deltas, R, deltas_buffer.data());
+    const bool is_compressed = deltas_size;
 
-    if (!deltas_size) {
-        // Uncompressed
+    if (!is_compressed) {
         deltas_size = park_deltas.size();
+    }
+    if ((uint64_t)(deltas_start + deltas_size - park_buffer) > park_buffer_size) {
+        throw std::logic_error(
+            "Overflowed park buffer, writing " + std::to_string(deltas_start + deltas_size - park_buffer) +
+            " bytes. Space: " + std::to_string(park_buffer_size));
+    }
+    if (!is_compressed) {
+        // Uncompressed
         Util::IntToTwoBytesLE(index, deltas_size | 0x8000);
         memcpy(deltas_start, park_deltas.data(), deltas_size);
     } else {
         // Compressed
         Util::IntToTwoBytesLE(index, deltas_size);
+        memcpy(deltas_start, deltas_buffer.data(), deltas_size);
     }
     index += 2 + deltas_size;
 
-    if ((uint64_t)(index - park_buffer) > park_buffer_size) {
-        throw std::logic_error(
-            "Overflowed park buffer, writing " + std::to_string(index - park_buffer) +
-            " bytes. Space: " + std::to_string(park_buffer_size));
-    }
     memset(index, 0x00, park_buffer_size - (index - park_buffer));
 }
 
-- 
2.43.0


From d909367801df3c4d13b38559ed04f5de44345f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 11/12] fix: phase 4 writes past the C3 park before it reports
 the overflow

---
 include/chia/phase4.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 5706937..ce3b76c 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -122,12 +122,14 @@ uint64_t compute(	FILE* plot_file,
 			write_data_t tmp;
 			tmp.offset = park.offset;
 			tmp.buffer.resize(C3_size);
+			std::vector<uint8_t> buffer(park.deltas.size() * 8);
 			const size_t num_bytes =
-					Encoding::ANSEncodeDeltas(park.deltas, kC3R, tmp.buffer.data() + 2);
+					Encoding::ANSEncodeDeltas(park.deltas, kC3R, buffer.data());
 			
 			if(num_bytes + 2 > C3_size) {
 				throw std::logic_error("C3 overflow");
 			}
+			memcpy(tmp.buffer.data() + 2, buffer.data(), num_bytes);
 			Util::IntToTwoBytes(tmp.buffer.data(), num_bytes);	// Write the size
 			out.emplace_back(std::move(tmp));
 		}, &plot_write, std::max(num_threads / 2, 1), "phase4/C3");
-- 
2.43.0


From 679f6645e3f3c99287d2f70370bb2060f67eb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:28 +0000
Subject: [PATCH 12/12] fix: phase 4 leaves the last C3 park out of the file
 when it holds no deltas

---
 include/chia/phase4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index ce3b76c..c0bc078 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -205,7 +205,7 @@ uint64_t compute(	FILE* plot_file,
     }
     final_file_writer_3 += P7_park_size;
 
-    if(!park_deltas.deltas.empty()) {
+    if(num_C1_entries > 0) {
     	park_deltas.offset = begin_byte_C3 + (num_C1_entries - 1) * C3_size;
 		park_threads.take(park_deltas);
     }
-- 
2.43.0

