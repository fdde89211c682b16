From 7ff6ba6a31bd0ce4ce00417252616452dc79f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 01/84] fix: size the data free list for the largest data
 buffer

The data file's free list was created with the index file's number of lists
(8192), so releasing or reserving a value larger than about 8 KiB indexed past
the end of the list array.
---
 src/drm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drm_base.h b/src/drm_base.h
index 4deb27f..0552e3c 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -259,7 +259,7 @@ public:
                 if (index) {
                     free_lists = new FreeList(mbdir + "_ibfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
                 } else {
-                    free_lists = new FreeList(mbdir + "_dbfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
+                    free_lists = new FreeList(mbdir + "_dbfl", DATA_BUFFER_ALIGNMENT, NUM_DATA_BUFFER_RESERVE);
                 }
             }
         }
-- 
2.43.0


From 604169d63ab305243d040279fe34d4b2b12ea887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 02/84] fix: keep a 256-byte key whose root edge is empty

AddRootEdge stored the key length in the one-byte edge length, so the first
key of the maximum length below a root edge wrote an empty edge: Add returned
SUCCESS and counted an entry that could never be found.
---
 src/dict_mem.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++------
 src/dict_mem.h   |  1 +
 src/drm_base.h   |  1 +
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 5c363ee..488d249 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -278,17 +278,26 @@ bool DictMem::IsValid() const
 void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
     int len, size_t data_offset)
 {
-    edge_ptrs.len_ptr[0] = len;
-    if (len > LOCAL_EDGE_LEN) {
+    // The edge length is stored in one byte. The part of the key which does not
+    // fit in the root edge goes to a child node.
+    int edge_len = len > MAX_EDGE_LEN ? MAX_EDGE_LEN : len;
+    edge_ptrs.len_ptr[0] = edge_len;
+    if (edge_len > LOCAL_EDGE_LEN) {
         size_t edge_str_off;
-        ReserveData(key + 1, len - 1, edge_str_off);
+        ReserveData(key + 1, edge_len - 1, edge_str_off);
         Write5BInteger(edge_ptrs.ptr, edge_str_off);
     } else {
-        memcpy(edge_ptrs.ptr, key + 1, len - 1);
+        memcpy(edge_ptrs.ptr, key + 1, edge_len - 1);
     }
 
-    edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
-    Write6BInteger(edge_ptrs.offset_ptr, data_offset);
+    if (edge_len == len) {
+        edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
+        Write6BInteger(edge_ptrs.offset_ptr, data_offset);
+    } else {
+        edge_ptrs.flag_ptr[0] = 0;
+        Write6BInteger(edge_ptrs.offset_ptr,
+            AddTailNode(key + edge_len, len - edge_len, data_offset));
+    }
 
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
@@ -302,6 +311,33 @@ void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
 #endif
 }
 
+// Create a node with one leaf edge holding the given key bytes.
+size_t DictMem::AddTailNode(const uint8_t* key, int len, size_t data_offset)
+{
+    NodePtrs node_ptrs;
+    EdgePtrs tail_edge_ptrs;
+    uint8_t* node;
+
+#ifdef __DEBUG__
+    assert(len > 0 && len <= LOCAL_EDGE_LEN);
+#endif
+    bool node_move = ReserveNode(0, node_ptrs.offset, node);
+    InitNodePtrs(node, 0, node_ptrs);
+    node[0] = FLAG_NODE_NONE | FLAG_NODE_SORTED;
+    node[1] = 0;
+    InitEdgePtrs(node_ptrs, 0, tail_edge_ptrs);
+    node_ptrs.edge_key_ptr[0] = key[0];
+    memcpy(tail_edge_ptrs.ptr, key + 1, len - 1);
+    tail_edge_ptrs.len_ptr[0] = len;
+    tail_edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
+    Write6BInteger(tail_edge_ptrs.offset_ptr, data_offset);
+    if (node_move)
+        WriteData(node, node_size[0], node_ptrs.offset);
+    header->n_edges++;
+
+    return node_ptrs.offset;
+}
+
 void DictMem::UpdateTailEdge(EdgePtrs& edge_ptrs, int match_len, MBData& data,
     EdgePtrs& tail_edge, uint8_t& new_key_first,
     bool& map_new_sliding)
diff --git a/src/dict_mem.h b/src/dict_mem.h
index bcb9374..1c922e6 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -109,6 +109,7 @@ private:
     bool ReserveNode(int nt, size_t& offset, uint8_t*& ptr);
     void ReleaseNode(size_t offset, int nt);
     void ReleaseBuffer(size_t offset, int size);
+    size_t AddTailNode(const uint8_t* key, int len, size_t data_offset);
     void UpdateTailEdge(EdgePtrs& edge_ptrs, int match_len, MBData& data,
         EdgePtrs& tail_edge, uint8_t& new_key_first,
         bool& map_new_sliding);
diff --git a/src/drm_base.h b/src/drm_base.h
index 0552e3c..c9134aa 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -39,6 +39,7 @@
 #define BUFFER_ALIGNMENT 1
 #define LOCAL_EDGE_LEN 6
 #define LOCAL_EDGE_LEN_M1 5
+#define MAX_EDGE_LEN 255
 #define EDGE_NODE_LEADING_POS 7
 #define EXCEP_STATUS_NONE 0
 #define EXCEP_STATUS_ADD_EDGE 1
-- 
2.43.0


From 90b6ab2ee55b0032e6d730b0b8ed95ace005f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 03/84] fix: do not match an edge which is longer than the rest
 of the key

Find, InDB, FindLongestPrefix, Remove and the prefix-cache seeding compared the
whole edge label with the bytes at the key cursor even when fewer key bytes were
left. This read past the caller's key and reported a match when the bytes behind
the key happened to continue the edge.
---
 src/detail/search_engine.cpp | 7 ++++++-
 src/detail/search_engine.h   | 7 ++++---
 src/dict.cpp                 | 2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c7e2d65..591973e 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -468,7 +468,7 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
-            rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
+            rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, len, key_buff, edge_len, edge_len_m1);
             if (rval == MBError::READ_ERROR)
                 break;
             if (rval == MBError::NOT_EXIST)
@@ -552,6 +552,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            // No match if the key ends inside the edge.
+            if (edge_len > len) {
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             // match edge string
             if (edge_len > LOCAL_EDGE_LEN) {
                 size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 08b5e25..646ddc1 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -69,7 +69,7 @@ namespace detail {
         inline bool remainderMatches(const uint8_t* key_buff, const uint8_t* p, int rem_len) const;
         inline bool isLeaf(const EdgePtrs& edge_ptrs) const;
         inline int compareCurrEdgeTail(const EdgePtrs& edge_ptrs, MBData& data, const uint8_t* p,
-            const uint8_t*& key_buff, int& edge_len, int& edge_len_m1) const;
+            int len, const uint8_t*& key_buff, int& edge_len, int& edge_len_m1) const;
         inline int resolveMatchOrInDict(MBData& data, EdgePtrs& edge_ptrs, bool at_root) const;
         // Root-edge accessor (reads directly from DictMem)
         // Fast-path: try to seed traversal state from the prefix cache.
@@ -133,9 +133,10 @@ namespace detail {
     }
 
     inline int SearchEngine::compareCurrEdgeTail(const EdgePtrs& edge_ptrs, MBData& data, const uint8_t* p,
-        const uint8_t*& key_buff, int& edge_len, int& edge_len_m1) const
+        int len, const uint8_t*& key_buff, int& edge_len, int& edge_len_m1) const
     {
-        if (edge_len <= 0)
+        // No match if the key ends inside the edge.
+        if (edge_len <= 0 || edge_len > len)
             return MBError::NOT_EXIST;
         int ret = loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1);
         if (ret != MBError::SUCCESS)
diff --git a/src/dict.cpp b/src/dict.cpp
index 0833d48..c2705f0 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -537,7 +537,7 @@ void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool fro
             key_buff = nullptr;
         }
         // compare tail
-        if (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0) {
+        if (edge_len > remain || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)) {
             break;
         }
         // If 4-byte boundary falls inside this edge and prefix matches, seed mid-edge entry.
-- 
2.43.0


From 16eaa557632f1123bed87b84e4d55301f18a4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 04/84] fix: FindLongestPrefix reports the length of the prefix
 it found

match_len was advanced to an internal node without data before its match flag
was known, so a shorter match was returned with the length of the longer,
absent key.
---
 src/detail/search_engine.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 591973e..e7d8564 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -285,8 +285,9 @@ namespace detail {
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                data.match_len = len;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = len;
             }
         }
 
@@ -578,8 +579,10 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                data.match_len = key_cursor - key_base;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                // Keep the length of the last matching node if there is no data here.
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key_base;
                 break;
             }
 #ifdef __LOCK_FREE__
-- 
2.43.0


From 80169916b2a864d11a97dc2c3e061637750a8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 05/84] fix: hand over the value buffer when the rc tree has
 the longer prefix

findPrefix overwrote data.buff without freeing it and without updating
buff_len and the ownership flag, so the caller's MBData leaked its buffer and
later reads wrote past the end of the new one.
---
 src/detail/search_engine.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index e7d8564..30d3399 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -87,10 +87,15 @@ namespace detail {
 
         // Prefer the longer match: copy value and match_len when rc-path wins.
         if (data_rc.match_len > data.match_len) {
-            data_rc.TransferValueTo(data.buff, data.data_len);
+            uint8_t* value = nullptr;
+            int value_len = 0;
+            rval = data_rc.TransferValueTo(value, value_len);
+            if (rval == MBError::SUCCESS)
+                rval = data.TransferValueFrom(value, value_len);
             // Preserve the longer match length from rc-path.
             data.match_len = data_rc.match_len;
-            rval = MBError::SUCCESS;
+            data.data_offset = data_rc.data_offset;
+            data.bucket_index = data_rc.bucket_index;
         }
         return rval;
     }
-- 
2.43.0


From 735041696142ecc7344cc17f03790088f2c3bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 06/84] fix: FindLowerBound returns the largest key not greater
 than the given key

The traversal compared whole edge labels with the key even when fewer key bytes
were left (reading past the key), never considered a root edge longer than the
key, returned a key below the previous root edge when the current root edge was
the answer, and followed a leaf edge as if it led to a node. match_len of a
reused MBData also leaked into bound_key.
---
 src/db.cpp                   |  1 +
 src/detail/search_engine.cpp | 69 ++++++++++++++++--------------------
 2 files changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ac47816..8da130d 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -935,6 +935,7 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
         return MBError::NOT_ALLOWED;
 
     data.options = 0;
+    data.match_len = 0;
     if (bound_key != nullptr)
         bound_key->reserve(CONSTS::MAX_KEY_LENGHTH);
     detail::SearchEngine engine(*dict);
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 30d3399..7939261 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -173,37 +173,30 @@ namespace detail {
             edge_label_ptr = edge_ptrs.ptr;
         }
 
-        if (edge_len < len) {
-            int label_cmp = memcmp(edge_label_ptr, key_cursor + 1, edge_label_len);
-            if (label_cmp != 0) {
-                if (label_cmp < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->push_back(static_cast<char>(key[0]));
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                    }
+        // Compare the edge label with as many key bytes as there are.
+        int cmp_len = edge_len < len ? edge_label_len : len - 1;
+        int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key_cursor + 1, cmp_len) : 0;
+        if (label_cmp != 0 || edge_len > len) {
+            // All keys below this edge are less than the given key, or all are greater.
+            if (label_cmp < 0) {
+                bound_state.use_curr_edge = true;
+                if (bound_key) {
+                    bound_key->push_back(static_cast<char>(key[0]));
+                    bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
                 }
-                return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
             }
+            return MBError::NOT_EXIST;
+        }
 
+        if (edge_len < len && !isLeaf(edge_ptrs)) {
             len -= edge_len;
             key_cursor += edge_len;
             data.match_len += edge_len;
             rval = traverseToLowerBound(key_cursor, len, edge_ptrs, data, bound_edge_ptrs, bound_state);
-        } else if (edge_len == len) {
-            if (len > 1 && memcmp(edge_label_ptr, key + 1, len - 1) != 0) {
-                if (memcmp(edge_label_ptr, key + 1, len - 1) < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->append(reinterpret_cast<const char*>(key), data.match_len + 1);
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), len - 1);
-                    }
-                }
-            } else {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (rval == MBError::SUCCESS)
-                    data.match_len += edge_len;
-            }
+        } else {
+            rval = dict.ReadDataFromEdge(data, edge_ptrs);
+            if (rval == MBError::SUCCESS)
+                data.match_len += edge_len;
         }
 
         return rval;
@@ -732,22 +725,22 @@ namespace detail {
             // Compare the remainder of the edge label with the remaining key bytes.
             // Any divergence returns NOT_EXIST to the caller, carrying the best
             // candidate captured so far in bound_edge_ptrs.
-            if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, edge_label_len);
-                if (label_cmp != 0) {
-                    // If the edge label is strictly less than the key suffix, signal
-                    // that the current subtree itself is a valid lower-bound pivot.
-                    if (label_cmp < 0) {
-                        state.use_curr_edge = true;
-                        if (state.bound_key) {
-                            state.bound_key->append(reinterpret_cast<const char*>(state.key), data.match_len + 1);
-                            state.bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                        }
+            if (edge_label_len < 0) {
+                // Malformed edge; treat as not found.
+                return MBError::NOT_EXIST;
+            }
+            int cmp_len = edge_len < len ? edge_label_len : len - 1;
+            int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key + 1, cmp_len) : 0;
+            if (label_cmp != 0 || edge_len > len) {
+                // If the edge label is strictly less than the key suffix, signal
+                // that the current subtree itself is a valid lower-bound pivot.
+                if (label_cmp < 0) {
+                    state.use_curr_edge = true;
+                    if (state.bound_key) {
+                        state.bound_key->append(reinterpret_cast<const char*>(state.key), data.match_len + 1);
+                        state.bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
                     }
-                    return MBError::NOT_EXIST;
                 }
-            } else if (edge_label_len < 0) {
-                // Malformed edge; treat as not found.
                 return MBError::NOT_EXIST;
             }
 
-- 
2.43.0


From 73054e2e0f378dd388fea764d80f27ca588e12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 07/84] fix: InDB does not report internal nodes without data
 as entries

InDB returned true for every byte string at which the tree happens to branch or
at which an entry was removed, because only Remove looked at the match flag.
---
 src/db.cpp                 | 4 ++--
 src/detail/search_engine.h | 3 ++-
 src/dict.cpp               | 9 +++++++++
 src/dict.h                 | 1 +
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 8da130d..89d905a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -887,10 +887,10 @@ bool DB::InDB(const char* key, int len, int& err)
         err = MBError::NOT_ALLOWED;
         return false;
     }
-    MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
+    MBData data(0, CONSTS::OPTION_KEY_ONLY);
     detail::SearchEngine engine(*dict);
     int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, data);
-    if (rval == MBError::IN_DICT) {
+    if (rval == MBError::SUCCESS) {
         return true; // found it
     } else if (rval != MBError::NOT_EXIST) {
         err = rval; // error
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 646ddc1..7815be7 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -156,7 +156,8 @@ namespace detail {
             return MBError::IN_DICT;
         }
         if (data.options & CONSTS::OPTION_KEY_ONLY) {
-            return MBError::SUCCESS;
+            // An internal node without data is only a branch, not an entry.
+            return isLeaf(edge_ptrs) ? MBError::SUCCESS : dict.CheckNodeMatch(edge_ptrs);
         }
         return dict.ReadDataFromEdge(data, edge_ptrs);
     }
diff --git a/src/dict.cpp b/src/dict.cpp
index c2705f0..d9a6c00 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -666,6 +666,15 @@ int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const
     return MBError::SUCCESS;
 }
 
+// Check if the node which the edge points to holds data.
+int Dict::CheckNodeMatch(const EdgePtrs& edge_ptrs) const
+{
+    uint8_t node_flag;
+    if (mm.ReadData(&node_flag, 1, Get6BInteger(edge_ptrs.offset_ptr)) != 1)
+        return MBError::READ_ERROR;
+    return (node_flag & FLAG_NODE_MATCH) ? MBError::SUCCESS : MBError::NOT_EXIST;
+}
+
 // Delete operations:
 //   If this is a leaf node, need to remove the edge. Otherwise, unset the match flag.
 //   Also need to set the delete flag in the data block so that it can be reclaimed later.
diff --git a/src/dict.h b/src/dict.h
index a7bdfba..b0eadb0 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -144,6 +144,7 @@ private:
     int ReleaseBuffer(size_t offset);
     int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
+    int CheckNodeMatch(const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
     int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
-- 
2.43.0


From 86fe6b7b136ca98f70e1bfc980bb87817c281618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 08/84] fix: a prefix iterator does not return keys shorter
 than the prefix

begin(prefix) also returned every entry whose key is a proper prefix of the
requested prefix.
---
 src/iterator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterator.cpp b/src/iterator.cpp
index c9ddd94..c43ff24 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -267,7 +267,8 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
                 }
             }
 
-            if (match != MATCH_NONE) {
+            // A node above the prefix is traversed, but its own entry does not match.
+            if (match != MATCH_NONE && match_str.size() >= prefix.size()) {
                 inode = new_iterator_node(match_str, &value);
                 if (inode != NULL) {
                     rval = kv_per_node->AddToTail(inode);
-- 
2.43.0


From 995f6fb663793e407a81084f8b0c8e949d1f6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 09/84] fix: keep jemalloc data buffers off offset zero and the
 arena with the writer

---
 src/dict.cpp          |  7 +++++--
 src/rollable_file.cpp | 19 +++++++++----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index d9a6c00..a09b77b 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -127,8 +127,10 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
     }
 
     // In jemalloc mode, ensure the data-file arena starts after the reserved
-    // embedded prefix-cache region so allocations do not overwrite cache tables.
-    if ((options & CONSTS::OPTION_JEMALLOC) && header->pfxcache_size > 0) {
+    // data header and embedded prefix-cache region so that no data buffer is at
+    // offset zero and allocations do not overwrite cache tables.
+    // Only the writer owns the arena.
+    if ((options & CONSTS::OPTION_JEMALLOC) && (options & CONSTS::ACCESS_MODE_WRITER)) {
         // header->m_data_offset already points to the first user-data byte.
         // PreAlloc advances the arena's alloc_size to this offset for block 0.
         (void)kv_file->PreAlloc(header->m_data_offset);
@@ -997,6 +999,7 @@ int Dict::RemoveAll()
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
         kv_file->ResetJemalloc();
+        (void)kv_file->PreAlloc(GetStartDataOffset());
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 41ed77c..b6d8c45 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -112,7 +112,9 @@ void RollableFile::InitShmSlidingAddr(std::atomic<size_t>* shm_sliding_addr)
 
 void RollableFile::Close()
 {
-    if (mode & CONSTS::OPTION_JEMALLOC) {
+    // The arena belongs to the writer. The block files are shared by all the
+    // handles in this process, so a reader must not destroy it.
+    if ((mode & CONSTS::OPTION_JEMALLOC) && (mode & CONSTS::ACCESS_MODE_WRITER)) {
         DestroyJemallocArena(false);
     }
     if (sliding_addr != NULL) {
@@ -151,14 +153,9 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
 
     if (!map_file && (mode & CONSTS::MEMORY_ONLY_MODE))
         return MBError::NO_MEMORY;
-    bool init_jem = false;
-    if (block_order == 0 && (mode & CONSTS::OPTION_JEMALLOC)) {
-        // Check if jemalloc is initialized already
-        if (ResourcePool::getInstance().GetResourceByPath(path + "0") == nullptr) {
-            // mm_meta is only initialized for the first block
-            init_jem = true;
-        }
-    }
+    // mm_meta is only initialized for the first block, and only the writer allocates.
+    bool init_jem = block_order == 0 && (mode & CONSTS::OPTION_JEMALLOC)
+        && (mode & CONSTS::ACCESS_MODE_WRITER);
     files[block_order] = ResourcePool::getInstance().OpenFile(path + ss.str(),
         mode,
         block_size,
@@ -175,7 +172,9 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
                     return rval;
                 }
             }
-            rval = ConfigureJemalloc(files[0]->mm_meta);
+            // Check if jemalloc is initialized already
+            if (files[0]->mm_meta->arena_index == 0)
+                rval = ConfigureJemalloc(files[0]->mm_meta);
         }
     } else if ((mode & CONSTS::MEMORY_ONLY_MODE) || (mode & CONSTS::OPTION_JEMALLOC)) {
         rval = MBError::MMAP_FAILED;
-- 
2.43.0


From 825678ed0dff280a3798837f86a310594223d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 10/84] fix: release nodes, strings and data buffers only after
 they are unlinked

---
 src/dict.cpp     | 22 +++++++++++++++++-----
 src/dict_mem.cpp | 44 ++++++++++++++++++++++++++++++++------------
 src/dict_mem.h   |  4 ++++
 3 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index a09b77b..663f9c1 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -698,8 +698,10 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         } else {
             rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
         }
-        ReleaseBuffer(data_off, rel_size);
         rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
+        // The data buffer can be reused only after the edge is removed.
+        if (rval == MBError::SUCCESS || rval == MBError::TRY_AGAIN)
+            ReleaseBuffer(data_off, rel_size);
     } else {
         // No exception handling in this case
         header->excep_lf_offset = 0;
@@ -715,7 +717,13 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         if (node_buff[0] & FLAG_NODE_MATCH) {
             // Unset the match flag
             node_buff[0] &= ~FLAG_NODE_MATCH;
+#ifdef __LOCK_FREE__
+            lfree.WriterLockFreeStart(edge_ptrs.offset);
+#endif
             mm.WriteData(&node_buff[0], 1, node_off);
+#ifdef __LOCK_FREE__
+            lfree.WriterLockFreeStop();
+#endif
 
             // Release data buffer
             data_off = Get6BInteger(node_buff + 2);
@@ -1201,8 +1209,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
         if (!overwrite)
             return MBError::IN_DICT;
-        if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", mbd.data_offset);
+        // The old buffer must not be reused before the new one is published.
+        size_t old_data_off = mbd.data_offset;
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
@@ -1217,9 +1225,12 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        if (ReleaseBuffer(old_data_off) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", old_data_off);
     } else {
         uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
+        size_t old_data_off = 0;
 
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
@@ -1229,8 +1240,7 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
             mbd.data_offset = Get6BInteger(node_buff + 2);
             if (!overwrite)
                 return MBError::IN_DICT;
-            if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-                Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
+            old_data_off = mbd.data_offset;
             node_buff[NODE_EDGE_KEY_FIRST] = 0;
         } else {
             // set the match flag
@@ -1253,6 +1263,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        if (old_data_off != 0 && ReleaseBuffer(old_data_off) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", old_data_off);
     }
 
     return MBError::SUCCESS;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 488d249..3bd8f97 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -467,8 +467,6 @@ int DictMem::InsertNode(EdgePtrs& edge_ptrs, int match_len,
     if (node_move)
         WriteData(node, node_size[0], node_ptrs.offset);
 
-    if (release_buffer_size > 0)
-        ReleaseBuffer(edge_str_off, release_buffer_size);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -479,6 +477,9 @@ int DictMem::InsertNode(EdgePtrs& edge_ptrs, int match_len,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // The old edge string must not be reused before the new edge is published.
+    if (release_buffer_size > 0)
+        ReleaseBuffer(edge_str_off, release_buffer_size);
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -572,8 +573,6 @@ int DictMem::AddLink(EdgePtrs& edge_ptrs, int match_len, const uint8_t* key,
         WriteData(node, node_size[1], node_ptrs.offset);
 
     // Update the parent edge
-    if (release_buffer_size > 0)
-        ReleaseBuffer(edge_str_off, release_buffer_size);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -584,6 +583,9 @@ int DictMem::AddLink(EdgePtrs& edge_ptrs, int match_len, const uint8_t* key,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // The old edge string must not be reused before the new edge is published.
+    if (release_buffer_size > 0)
+        ReleaseBuffer(edge_str_off, release_buffer_size);
 
     header->n_edges += 2;
     return MBError::SUCCESS;
@@ -704,8 +706,6 @@ int DictMem::UpdateNode(EdgePtrs& edge_ptrs, const uint8_t* key, int key_len,
     if (node_move)
         WriteData(node, node_size[nt], node_ptrs.offset);
 
-    if (release_node_index >= 0)
-        ReleaseNode(old_node_off, release_node_index);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -716,6 +716,9 @@ int DictMem::UpdateNode(EdgePtrs& edge_ptrs, const uint8_t* key, int key_len,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // The old node must not be reused before the new edge is published.
+    if (release_node_index >= 0)
+        ReleaseNode(old_node_off, release_node_index);
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -1327,8 +1330,6 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
 {
     // Clear the edge
     // Root node needs special handling.
-    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN)
-        ReleaseBuffer(Get5BInteger(edge_ptrs.ptr), edge_ptrs.len_ptr[0] - 1);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
@@ -1339,6 +1340,8 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN)
+        ReleaseBuffer(Get5BInteger(edge_ptrs.ptr), edge_ptrs.len_ptr[0] - 1);
 }
 
 int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
@@ -1447,6 +1450,7 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
 
     if (header->excep_offset == root_offset) {
         RemoveRootEdge(edge_ptrs);
+        ReleaseUnlinkedNodes();
         return MBError::SUCCESS;
     }
 
@@ -1476,11 +1480,8 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     header->excep_updating_status = EXCEP_STATUS_NONE;
 
     header->n_edges--;
-    ReleaseNode(header->excep_offset, nt - 1);
-    if (str_size_rel > 0)
-        ReleaseBuffer(str_off_rel, str_size_rel);
 
-        // Clear the edge
+    // Clear the edge
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
@@ -1492,9 +1493,28 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
 
+    // If the node has become empty, its parent still links to it. It can be
+    // reused only after the caller has removed the edge from the parent.
+    if (rval == MBError::TRY_AGAIN)
+        unlinked_nodes.push_back(header->excep_offset);
+    else
+        ReleaseNode(header->excep_offset, nt - 1);
+    if (str_size_rel > 0)
+        ReleaseBuffer(str_off_rel, str_size_rel);
+    if (rval != MBError::TRY_AGAIN)
+        ReleaseUnlinkedNodes();
+
     return rval;
 }
 
+// All the empty nodes have only one edge.
+void DictMem::ReleaseUnlinkedNodes()
+{
+    for (size_t node_off : unlinked_nodes)
+        ReleaseNode(node_off, 0);
+    unlinked_nodes.clear();
+}
+
 // Should only be called by writer
 void DictMem::PrintStats(std::ostream& out_stream) const
 {
diff --git a/src/dict_mem.h b/src/dict_mem.h
index 1c922e6..e95cc94 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -25,6 +25,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <string>
+#include <vector>
 
 #include "db.h"
 #include "drm_base.h"
@@ -117,6 +118,7 @@ private:
         MBData& data, int& release_buffer_size,
         size_t& edge_str_off, bool& map_new_sliding);
     void RemoveRootEdge(const EdgePtrs& edge_ptrs);
+    void ReleaseUnlinkedNodes();
     int RemoveEdgeSizeN(const EdgePtrs& edge_ptrs, int nt, size_t node_offset,
         uint8_t* old_node_buffer, size_t& str_off_rel,
         int& str_size_rel, size_t parent_edge_offset);
@@ -143,6 +145,8 @@ private:
     std::shared_ptr<MmapFileIO> header_file;
 
     size_t root_offset_rc;
+    // empty nodes which are still linked by their parents
+    std::vector<size_t> unlinked_nodes;
 };
 
 inline void DictMem::WriteEdge(const EdgePtrs& edge_ptrs) const
-- 
2.43.0


From ccb9f76bbec266796cb5de274561dcbb596ba06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 11/84] fix: reads at an invalid offset return an error instead
 of failing

---
 src/rollable_file.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index b6d8c45..b54766d 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -201,8 +201,12 @@ int RollableFile::CheckAndOpenFile(size_t order, bool create_file)
 {
     int rval = MBError::SUCCESS;
 
-    if (order >= static_cast<size_t>(files.size()))
+    if (order >= static_cast<size_t>(files.size())) {
+        // A reader may get an invalid offset if the writer is updating the edge.
+        if (order >= max_num_block)
+            return MBError::NO_RESOURCE;
         files.resize(order + 3, NULL);
+    }
 
     if (files[order] == NULL)
         rval = OpenAndMapBlockFile(order, create_file);
@@ -215,6 +219,8 @@ int RollableFile::CheckAndOpenFile(size_t order, bool create_file)
 uint8_t* RollableFile::GetShmPtr(size_t offset, int size)
 {
     size_t order = offset / block_size;
+    if (offset % block_size + size > block_size)
+        return NULL;
     int rval = CheckAndOpenFile(order, false);
 
     if (rval != MBError::SUCCESS)
@@ -636,13 +642,13 @@ size_t RollableFile::MemWrite(const void* src, size_t size, size_t offset)
 
 size_t RollableFile::MemRead(void* dst, size_t size, size_t offset)
 {
-    int block_order = offset / block_size;
+    size_t block_order = offset / block_size;
     size_t relative_offset = offset % block_size;
     if (relative_offset + size > block_size) {
-        throw (int)MBError::OUT_OF_BOUND;
+        return 0; // signal read error to caller
     }
     // Ensure the source block is opened/mapped in jemalloc mode
-    if (block_order >= (int)files.size() || files[block_order] == nullptr) {
+    if (block_order >= files.size() || files[block_order] == nullptr) {
         int rval = CheckAndOpenFile(block_order, false);
         if (rval != MBError::SUCCESS || files[block_order] == nullptr) {
             return 0; // signal read error to caller
-- 
2.43.0


From 83c99cf0e74da20bb329c32b012b0cd065fc09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 12/84] fix: a reader checks every edge on its path after the
 value is read

---
 src/detail/lf_guard.h        |  43 +++-
 src/detail/search_engine.cpp | 379 +++++++++++------------------------
 src/detail/search_engine.h   |  14 +-
 src/lock_free.cpp            |  49 +++++
 src/lock_free.h              |   8 +
 5 files changed, 227 insertions(+), 266 deletions(-)

diff --git a/src/detail/lf_guard.h b/src/detail/lf_guard.h
index e543803..13732b3 100644
--- a/src/detail/lf_guard.h
+++ b/src/detail/lf_guard.h
@@ -4,25 +4,54 @@
  */
 #pragma once
 
+#include "error.h"
+
 #ifdef __LOCK_FREE__
 #include "lock_free.h"
-#include "mb_data.h"
+#endif
 
 namespace mabain {
 
+// The guard is created before the first edge is read. All the edges which were
+// followed are recorded. A result is only valid if none of them was modified by
+// the writer before the result was complete.
 struct ReaderLFGuard {
+#ifdef __LOCK_FREE__
+    // A key has up to 256 bytes, and every edge matches at least one of them.
+    static const int MAX_EDGES = 258;
     LockFree& lf;
-    MBData& data;
     LockFreeData snap;
-    explicit ReaderLFGuard(LockFree& l, MBData& d)
+    int n_edges;
+    size_t edge_offsets[MAX_EDGES];
+
+    explicit ReaderLFGuard(LockFree& l)
         : lf(l)
-        , data(d)
+        , n_edges(0)
     {
         lf.ReaderLockFreeStart(snap);
     }
-    inline int stop(size_t edge_off) { return lf.ReaderLockFreeStop(snap, edge_off, data); }
+    inline void add(size_t edge_off)
+    {
+        if (n_edges < MAX_EDGES)
+            edge_offsets[n_edges++] = edge_off;
+    }
+    // Remove the last recorded edge
+    inline void drop() { n_edges--; }
+    // Check the edges recorded so far and move the snapshot forward.
+    inline int check(int rval)
+    {
+        int r = lf.ReaderLockFreeCheck(snap, edge_offsets, n_edges);
+        return r == MBError::SUCCESS ? rval : r;
+    }
+    inline bool unchanged() const { return lf.ReaderLockFreeUnchanged(snap); }
+#else
+    template <typename T>
+    explicit ReaderLFGuard(T&) { }
+    inline void add(size_t) { }
+    inline void drop() { }
+    inline int check(int rval) { return rval; }
+    inline bool unchanged() const { return true; }
+#endif
 };
 
 } // namespace mabain
-
-#endif // __LOCK_FREE__
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 7939261..8974a4e 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -19,22 +19,28 @@ namespace detail {
         int rval;
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
 
-        if (rc_root_offset != 0) {
+        while (rc_root_offset != 0) {
             dict.reader_rc_off = rc_root_offset;
             rval = tryFindAtRoot(rc_root_offset, key, len, data);
+            // The rc tree may be gone by now.
+            size_t curr_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
+            if (curr_root_offset != rc_root_offset) {
+                rc_root_offset = curr_root_offset;
+                continue;
+            }
             if (rval == MBError::SUCCESS) {
                 data.match_len = len;
                 return rval;
             } else if (rval != MBError::NOT_EXIST) {
                 return rval;
             }
-            data.options &= ~(CONSTS::OPTION_RC_MODE | CONSTS::OPTION_READ_SAVED_EDGE);
-        } else {
-            if (dict.reader_rc_off != 0) {
-                dict.reader_rc_off = 0;
-                dict.RemoveUnused(0);
-                dict.mm.RemoveUnused(0);
-            }
+            data.options &= ~CONSTS::OPTION_RC_MODE;
+            break;
+        }
+        if (rc_root_offset == 0 && dict.reader_rc_off != 0) {
+            dict.reader_rc_off = 0;
+            dict.RemoveUnused(0);
+            dict.mm.RemoveUnused(0);
         }
 
         rval = tryFindAtRoot(0, key, len, data);
@@ -44,46 +50,52 @@ namespace detail {
         return rval;
     }
 
+    int SearchEngine::tryFindPrefixAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data)
+    {
+        int rval = findPrefixInternal(root_off, key, len, data);
+#ifdef __LOCK_FREE__
+        int attempts = 0;
+        while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
+            nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
+            data.Clear();
+            rval = findPrefixInternal(root_off, key, len, data);
+        }
+#endif
+        return rval;
+    }
+
     int SearchEngine::findPrefix(const uint8_t* key, int len, MBData& data)
     {
         int rval;
         MBData data_rc;
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
-        if (rc_root_offset != 0) {
+        while (rc_root_offset != 0) {
             dict.reader_rc_off = rc_root_offset;
-            rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
-#ifdef __LOCK_FREE__
-            {
-                int attempts = 0;
-                while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
-                    nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-                    data_rc.Clear();
-                    rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
-                }
+            data_rc.Clear();
+            rval = tryFindPrefixAtRoot(rc_root_offset, key, len, data_rc);
+            // The rc tree may be gone by now.
+            size_t curr_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
+            if (curr_root_offset != rc_root_offset) {
+                rc_root_offset = curr_root_offset;
+                data_rc.Clear();
+                continue;
             }
-#endif
             if (rval != MBError::NOT_EXIST && rval != MBError::SUCCESS)
                 return rval;
-            data.options &= ~(CONSTS::OPTION_RC_MODE | CONSTS::OPTION_READ_SAVED_EDGE);
-        } else {
-            if (dict.reader_rc_off != 0) {
-                dict.reader_rc_off = 0;
-                dict.RemoveUnused(0);
-                dict.mm.RemoveUnused(0);
-            }
+            if (rval == MBError::NOT_EXIST)
+                data_rc.Clear();
+            data.options &= ~CONSTS::OPTION_RC_MODE;
+            break;
         }
-
-        rval = findPrefixInternal(0, key, len, data);
-#ifdef __LOCK_FREE__
-        {
-            int attempts = 0;
-            while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
-                nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-                data.Clear();
-                rval = findPrefixInternal(0, key, len, data);
-            }
+        if (rc_root_offset == 0 && dict.reader_rc_off != 0) {
+            dict.reader_rc_off = 0;
+            dict.RemoveUnused(0);
+            dict.mm.RemoveUnused(0);
         }
-#endif
+
+        rval = tryFindPrefixAtRoot(0, key, len, data);
+        if (rval != MBError::NOT_EXIST && rval != MBError::SUCCESS)
+            return rval;
 
         // Prefer the longer match: copy value and match_len when rc-path wins.
         if (data_rc.match_len > data.match_len) {
@@ -203,26 +215,24 @@ namespace detail {
     }
 
     int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    {
+        ReaderLFGuard lf_guard(dict.lfree);
+        return lf_guard.check(findPrefixPath(root_off, key, len, data, lf_guard));
+    }
+
+    int SearchEngine::findPrefixPath(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard) const
     {
         int rval;
         EdgePtrs& edge_ptrs = data.edge_ptrs;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
 
         rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
         if (rval != MBError::SUCCESS) {
             return MBError::READ_ERROR;
         }
+        lf_guard.add(edge_ptrs.offset);
 
         if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
             return MBError::NOT_EXIST;
         }
 
@@ -234,13 +244,6 @@ namespace detail {
         if (edge_len > LOCAL_EDGE_LEN) {
             if (dict.mm.ReadData(node_buff, edge_len_m1, Get5BInteger(edge_ptrs.ptr))
                 != edge_len_m1) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 return MBError::READ_ERROR;
             }
             key_buff = node_buff;
@@ -251,13 +254,6 @@ namespace detail {
         rval = MBError::NOT_EXIST;
         if (edge_len < len) {
             if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 return MBError::NOT_EXIST;
             }
 
@@ -265,20 +261,14 @@ namespace detail {
             key_cursor += edge_len;
 
             if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 data.match_len = key_cursor - key;
                 return dict.ReadDataFromEdge(data, edge_ptrs);
             }
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
             int last_prefix_rval = MBError::NOT_EXIST;
-            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer);
+            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval,
+                last_node_buffer, lf_guard);
             if (rval == MBError::NOT_EXIST && last_prefix_rval != rval)
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
@@ -289,158 +279,85 @@ namespace detail {
             }
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
     int SearchEngine::findInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
     {
-        EdgePtrs& edge_ptrs = data.edge_ptrs;
-        int rval;
-        const uint8_t* key_cursor = key;
-        int orig_len = len;
-        int consumed = 0;
-        const uint8_t* key_buff;
         // Do not seed from prefix cache for operations that require
         // precise parent/edge bookkeeping (e.g., remove) or during rc view.
         bool use_cache = true
             && !(dict.reader_rc_off != 0 && root_off == dict.reader_rc_off)
             && !(data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT);
-        bool used_cache = use_cache ? seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed) : false;
-
-        if (!used_cache) {
-#ifdef __LOCK_FREE__
-            ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
-
-            rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
-            if (rval != MBError::SUCCESS) {
-                return MBError::READ_ERROR;
-            }
-            if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
+        if (use_cache) {
+            ReaderLFGuard lf_guard(dict.lfree);
+            const uint8_t* key_cursor = key;
+            int len_remaining = len;
+            int consumed = 0;
+            if (seedFromCache(key, len, data.edge_ptrs, data, key_cursor, len_remaining, consumed)) {
+                int rval;
+                if (len_remaining <= 0)
+                    rval = resolveMatchOrInDict(data, data.edge_ptrs, false);
+                else if (isLeaf(data.edge_ptrs))
+                    rval = MBError::NOT_EXIST;
+                else
+                    rval = traverseFromEdge(key_cursor, len_remaining, consumed, data.edge_ptrs, data, lf_guard);
+                // The path above the cached edge is not known. Do not use the
+                // cache if the writer has modified any edge in the meantime.
+                if (lf_guard.unchanged())
+                    return rval;
             }
+        }
 
-            int edge_len = edge_ptrs.len_ptr[0];
-            int edge_len_m1 = edge_len - 1;
-            rval = MBError::NOT_EXIST;
-            if ((rval = loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1)) != MBError::SUCCESS) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::READ_ERROR;
-            }
+        ReaderLFGuard lf_guard(dict.lfree);
+        return lf_guard.check(findPath(root_off, key, len, data, lf_guard));
+    }
 
-            if (edge_len < len) {
-                if (!remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                key_cursor += edge_len;
-                consumed += edge_len;
-                len -= edge_len;
-                if (len <= 0) {
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-                if (isLeaf(edge_ptrs)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                // Find does not update prefix cache; writer seeds during Add
-            } else if (edge_len == len) {
-                if (remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-                    // Find does not update prefix cache; writer seeds during Add
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            } else {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            }
+    int SearchEngine::findPath(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
+    {
+        EdgePtrs& edge_ptrs = data.edge_ptrs;
+        const uint8_t* key_cursor = key;
+        int consumed = 0;
+        const uint8_t* key_buff;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+        int rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
+        if (rval != MBError::SUCCESS) {
+            return MBError::READ_ERROR;
         }
+        lf_guard.add(edge_ptrs.offset);
 
-        if (used_cache) {
-            if (len <= 0)
-                return resolveMatchOrInDict(data, edge_ptrs, false);
-            if (isLeaf(edge_ptrs))
-                return MBError::NOT_EXIST;
-        }
-        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+        int edge_len = edge_ptrs.len_ptr[0];
+        int edge_len_m1 = edge_len - 1;
+        if (edge_len == 0 || edge_len > len)
+            return MBError::NOT_EXIST;
+        if (loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1) != MBError::SUCCESS)
+            return MBError::READ_ERROR;
+        if (!remainderMatches(key_buff, key_cursor, edge_len_m1))
+            return MBError::NOT_EXIST;
+
+        // Find does not update prefix cache; writer seeds during Add
+        if (edge_len == len)
+            return resolveMatchOrInDict(data, edge_ptrs, true);
+        if (isLeaf(edge_ptrs))
+            return MBError::NOT_EXIST;
+
+        key_cursor += edge_len;
+        consumed += edge_len;
+        len -= edge_len;
+        return traverseFromEdge(key_cursor, len, consumed, edge_ptrs, data, lf_guard);
     }
 
     int SearchEngine::traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data)
+        EdgePtrs& edge_ptrs, MBData& data, ReaderLFGuard& lf_guard)
     {
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
         int rval = MBError::SUCCESS;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         int steps = 0;
         while (true) {
             if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 return MBError::UNKNOWN_ERROR;
             }
             if (data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT) {
@@ -457,74 +374,38 @@ namespace detail {
             }
             if (rval != MBError::SUCCESS)
                 break;
+            lf_guard.add(edge_ptrs.offset);
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, len, key_buff, edge_len, edge_len_m1);
-            if (rval == MBError::READ_ERROR)
-                break;
-            if (rval == MBError::NOT_EXIST)
+            if (rval != MBError::SUCCESS)
                 break;
 
             len -= edge_len;
-            if (len <= 0) {
-                int _ret = resolveMatchOrInDict(data, edge_ptrs, false);
-                return _ret;
-            }
-            if (isLeaf(edge_ptrs)) {
+            if (len <= 0)
+                return resolveMatchOrInDict(data, edge_ptrs, false);
+            if (isLeaf(edge_ptrs))
                 return MBError::NOT_EXIST;
-            }
 
             key_cursor += edge_len;
             consumed += edge_len;
             // Find does not update prefix cache; writer seeds during Add
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#else
-            edge_offset_prev = edge_ptrs.offset;
-#endif
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
-
         return rval;
     }
 
     int SearchEngine::traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
-        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const
+        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST],
+        ReaderLFGuard& lf_guard) const
     {
         int rval;
         uint8_t* node_buff = data.node_buff;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         const uint8_t* key_buff;
         int steps = 0;
         while (true) {
             if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 return MBError::UNKNOWN_ERROR;
             }
             // For prefix traversal we must read the node header into node_buff
@@ -541,18 +422,12 @@ namespace detail {
 
             if (rval != MBError::SUCCESS)
                 break;
+            lf_guard.add(edge_ptrs.offset);
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             // No match if the key ends inside the edge.
-            if (edge_len > len) {
+            if (edge_len == 0 || edge_len > len) {
                 rval = MBError::NOT_EXIST;
                 break;
             }
@@ -568,8 +443,8 @@ namespace detail {
                 key_buff = edge_ptrs.ptr;
             }
 
-            // Compare remainder of the edge string when present and ensure edge is valid
-            if (edge_len == 0 || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)) {
+            // Compare remainder of the edge string when present
+            if (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0) {
                 rval = MBError::NOT_EXIST;
                 break;
             }
@@ -583,18 +458,8 @@ namespace detail {
                     data.match_len = key_cursor - key_base;
                 break;
             }
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#endif
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 7815be7..23fc35a 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -45,6 +45,12 @@ namespace detail {
         // Longest prefix match
         int findPrefix(const uint8_t* key, int len, MBData& data);
 
+        // Find the edge of a node for DB iterator. The path is recorded in the guard.
+        int findNode(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard)
+        {
+            return findPath(root_off, key, len, data, lf_guard);
+        }
+
         // Lower bound (largest entry not greater than key)
         int lowerBound(const uint8_t* key, int len, MBData& data, std::string* bound_key);
 
@@ -54,14 +60,18 @@ namespace detail {
         // Exact-find internals
         inline int tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
         int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        int findPath(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
         int traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data);
+            EdgePtrs& edge_ptrs, MBData& data, ReaderLFGuard& lf_guard);
 
         // Prefix internals
+        int tryFindPrefixAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
         int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        int findPrefixPath(size_t root_off, const uint8_t* key, int len, MBData& data,
+            ReaderLFGuard& lf_guard) const;
         int traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
             EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval,
-            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const;
+            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST], ReaderLFGuard& lf_guard) const;
 
         // Small helpers
         // Exact-match path helper: always copy edge tail into node_buff
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index 0323324..afb207f 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -133,4 +133,53 @@ int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_off
     return MBError::SUCCESS;
 }
 
+int LockFree::ReaderLockFreeCheck(LockFreeData& snapshot, const size_t* edge_offsets,
+    int n_edges) const
+{
+    // All reads must be done before the lock free data is checked.
+    std::atomic_thread_fence(std::memory_order_acquire);
+    size_t curr_offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+    uint32_t curr_counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
+
+    // Note it is expected that count_diff can overflow.
+    uint32_t count_diff = curr_counter - snapshot.counter;
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN; // Cache is overwritten. Have to retry.
+
+    size_t modified[MAX_OFFSET_CACHE];
+    int n_modified = 0;
+    for (unsigned i = 0; i < count_diff; i++) {
+        int index = (snapshot.counter + i) % MAX_OFFSET_CACHE;
+        modified[n_modified++] = shm_data_ptr->offset_cache[index].load(MEMORY_ORDER_READER);
+    }
+    if (curr_offset != MAX_6B_OFFSET)
+        modified[n_modified++] = curr_offset;
+    if (n_modified == 0)
+        return MBError::SUCCESS;
+
+    for (int i = 0; i < n_edges; i++) {
+        for (int j = 0; j < n_modified; j++) {
+            if (edge_offsets[i] == modified[j])
+                return MBError::TRY_AGAIN;
+        }
+    }
+
+    // Need to recheck the counter difference
+    count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN;
+
+    // Writer was modifying different edges. It is safe to for the reader to proceed.
+    snapshot.counter = curr_counter;
+    return MBError::SUCCESS;
+}
+
+bool LockFree::ReaderLockFreeUnchanged(const LockFreeData& snapshot) const
+{
+    std::atomic_thread_fence(std::memory_order_acquire);
+    if (shm_data_ptr->offset.load(MEMORY_ORDER_READER) != MAX_6B_OFFSET)
+        return false;
+    return shm_data_ptr->counter.load(MEMORY_ORDER_READER) == snapshot.counter;
+}
+
 }
diff --git a/src/lock_free.h b/src/lock_free.h
index 7549508..8e3889a 100644
--- a/src/lock_free.h
+++ b/src/lock_free.h
@@ -59,6 +59,12 @@ public:
     // If there was race condition, this function returns MBError::TRY_AGAIN.
     int ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
         MBData& mbdata);
+    // Check all the edges on the path read since the snapshot was taken. If none of
+    // them was modified, the snapshot is moved forward to the time of the check.
+    int ReaderLockFreeCheck(LockFreeData& snapshot, const size_t* edge_offsets,
+        int n_edges) const;
+    // Check if the writer did not modify any edge since the snapshot was taken.
+    bool ReaderLockFreeUnchanged(const LockFreeData& snapshot) const;
 
 private:
     LockFreeShmData* shm_data_ptr;
@@ -68,6 +74,8 @@ private:
 inline void LockFree::WriterLockFreeStart(size_t offset)
 {
     shm_data_ptr->offset.store(offset, MEMORY_ORDER_WRITER);
+    // The edge must not be modified before the offset is visible.
+    std::atomic_thread_fence(std::memory_order_release);
 }
 
 inline void LockFree::ReaderLockFreeStart(LockFreeData& snapshot)
-- 
2.43.0


From 423493e7e5b2ee3fe0ec58dcc42e4bf99e85e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 13/84] fix: the iterator checks the path of each node it reads

---
 src/db.h         |  10 +++--
 src/iterator.cpp | 108 +++++++++++++++++------------------------------
 2 files changed, 44 insertions(+), 74 deletions(-)

diff --git a/src/db.h b/src/db.h
index 37bf8b3..b8c47fc 100644
--- a/src/db.h
+++ b/src/db.h
@@ -41,6 +41,7 @@ class AsyncWriter;
 class ResourceCollection;
 class MmapFileIO;
 struct _DBTraverseNode;
+struct ReaderLFGuard;
 
 typedef struct _MBConfig {
     const char* mbdir;
@@ -93,11 +94,12 @@ public:
 
     private:
         bool match_prefix(const std::string& key);
-        int get_node_offset(const std::string& node_key, size_t& parent_edge_off,
-            size_t& node_offset);
-        int load_node(const std::string& curr_node_key, size_t& parent_edge_off);
+        int get_node_offset(const std::string& node_key, size_t& node_offset,
+            ReaderLFGuard& lf_guard);
+        int load_node(const std::string& curr_node_key, ReaderLFGuard& lf_guard);
         int load_kv_for_node(const std::string& curr_node_key);
-        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list);
+        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list,
+            ReaderLFGuard& lf_guard);
         void iter_obj_init();
         bool next_dbt_buffer(struct _DBTraverseNode* dbt_n);
         void add_node_offset(size_t node_offset);
diff --git a/src/iterator.cpp b/src/iterator.cpp
index c43ff24..47a1b3e 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -17,6 +17,7 @@
 // @author Changxue Deng <chadeng@cisco.com>
 
 #include "db.h"
+#include "detail/lf_guard.h"
 #include "detail/search_engine.h"
 #include "dict.h"
 #include "integer_4b_5b.h"
@@ -199,24 +200,22 @@ bool DB::iterator::match_prefix(const std::string& key)
 }
 
 int DB::iterator::get_node_offset(const std::string& node_key,
-    size_t& parent_edge_off,
-    size_t& node_offset)
+    size_t& node_offset, ReaderLFGuard& lf_guard)
 {
-    int rval;
+    size_t root_off = 0;
+    if (value.options & CONSTS::OPTION_RC_MODE)
+        root_off = db_ref.dict->GetHeaderPtr()->rc_root_offset;
 
     node_offset = 0;
     value.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
     detail::SearchEngine engine(*db_ref.dict);
-    while (true) {
-        rval = engine.find(reinterpret_cast<const uint8_t*>(node_key.data()),
-            static_cast<int>(node_key.size()), value);
-        if (rval != MBError::TRY_AGAIN)
-            break;
-        nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-    }
+    int rval = engine.findNode(root_off, reinterpret_cast<const uint8_t*>(node_key.data()),
+        static_cast<int>(node_key.size()), value, lf_guard);
 
     if (rval == MBError::IN_DICT) {
-        parent_edge_off = edge_ptrs.parent_offset;
+        // The node may have been removed.
+        if (value.edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)
+            return MBError::NOT_EXIST;
         node_offset = Get6BInteger(value.edge_ptrs.offset_ptr);
         rval = MBError::SUCCESS;
     }
@@ -224,7 +223,7 @@ int DB::iterator::get_node_offset(const std::string& node_key,
 }
 
 int DB::iterator::load_kvs(const std::string& curr_node_key,
-    MBlsq* child_node_list)
+    MBlsq* child_node_list, ReaderLFGuard& lf_guard)
 {
     int rval;
     size_t child_node_off;
@@ -232,24 +231,12 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
     iterator_node* inode;
 
     while (true) {
-        if (lfree == NULL) {
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-        } else {
-#ifdef __LOCK_FREE__
-            LockFreeData snapshot;
-            int lf_ret;
-            size_t edge_off_prev = edge_ptrs.offset;
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, edge_off_prev, value);
-            if (lf_ret == MBError::TRY_AGAIN)
-                return lf_ret;
-#endif
-        }
+        lf_guard.add(edge_ptrs.offset);
+        rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
+            match_str, child_node_off);
+        if (lfree != NULL)
+            rval = lf_guard.check(rval);
+        lf_guard.drop();
 
         if (rval != MBError::SUCCESS)
             break;
@@ -287,7 +274,7 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
 }
 
 int DB::iterator::load_node(const std::string& curr_node_key,
-    size_t& parent_edge_off)
+    ReaderLFGuard& lf_guard)
 {
     int rval;
 
@@ -295,56 +282,34 @@ int DB::iterator::load_node(const std::string& curr_node_key,
         rval = db_ref.dict->ReadRootNode(node_buff, edge_ptrs, match, value);
     } else {
         size_t node_offset;
-        rval = get_node_offset(curr_node_key, parent_edge_off, node_offset);
-        if (rval != MBError::SUCCESS)
-            return rval;
-        rval = db_ref.dict->ReadNode(node_offset, node_buff, edge_ptrs, match,
-            value, false);
+        rval = get_node_offset(curr_node_key, node_offset, lf_guard);
+        if (rval == MBError::SUCCESS)
+            rval = db_ref.dict->ReadNode(node_offset, node_buff, edge_ptrs, match,
+                value, false);
     }
 
+    if (lfree != NULL)
+        rval = lf_guard.check(rval);
     return rval;
 }
 
 int DB::iterator::load_kv_for_node(const std::string& curr_node_key)
 {
     int rval;
+    int attempts = 0;
     MBlsq child_node_list(free_iterator_node);
-    size_t parent_edge_off;
 
-    if (lfree == NULL) {
-        rval = load_node(curr_node_key, parent_edge_off);
+    while (true) {
+        ReaderLFGuard lf_guard(*db_ref.dict->GetLockFreePtr());
+        rval = load_node(curr_node_key, lf_guard);
         if (rval == MBError::SUCCESS)
-            rval = load_kvs(curr_node_key, &child_node_list);
-    } else {
-#ifdef __LOCK_FREE__
-        LockFreeData snapshot;
-        int lf_ret;
-#endif
-        while (true) {
-#ifdef __LOCK_FREE__
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = load_node(curr_node_key, parent_edge_off);
-            if (rval == MBError::SUCCESS) {
-                rval = load_kvs(curr_node_key, &child_node_list);
-#ifdef __LOCK_FREE__
-                if (rval == MBError::TRY_AGAIN) {
-                    kv_per_node->Clear();
-                    child_node_list.Clear();
-                    continue;
-                }
-#endif
-            }
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, parent_edge_off, value);
-            if (lf_ret == MBError::TRY_AGAIN) {
-                kv_per_node->Clear();
-                child_node_list.Clear();
-                continue;
-            }
-#endif
+            rval = load_kvs(curr_node_key, &child_node_list, lf_guard);
+        if (rval != MBError::TRY_AGAIN || attempts++ >= CONSTS::LOCK_FREE_RETRY_LIMIT)
             break;
-        }
+
+        kv_per_node->Clear();
+        child_node_list.Clear();
+        nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
     }
 
     if (rval == MBError::SUCCESS) {
@@ -353,9 +318,12 @@ int DB::iterator::load_kv_for_node(const std::string& curr_node_key)
             node_stack->AddToHead(inode);
         }
     } else {
-        std::cerr << "failed to run ietrator: " << MBError::get_error_str(rval) << "\n";
         kv_per_node->Clear();
         child_node_list.Clear();
+        // All the entries below this node were removed by the writer.
+        if (rval == MBError::NOT_EXIST && curr_node_key.size() > 0)
+            return MBError::SUCCESS;
+        std::cerr << "failed to run ietrator: " << MBError::get_error_str(rval) << "\n";
     }
     return rval;
 }
-- 
2.43.0


From c7b9b6675d59e790fc881481b5bf771c272f8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 14/84] fix: FindLowerBound replaces the content of the bound
 key

---
 src/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 89d905a..1b40f32 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -936,8 +936,10 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
 
     data.options = 0;
     data.match_len = 0;
-    if (bound_key != nullptr)
+    if (bound_key != nullptr) {
+        bound_key->clear();
         bound_key->reserve(CONSTS::MAX_KEY_LENGHTH);
+    }
     detail::SearchEngine engine(*dict);
     return engine.lowerBound(reinterpret_cast<const uint8_t*>(key), len, data, bound_key);
 }
-- 
2.43.0


From 731f7e0344e8d0f14037367b32019e77eabd1f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 15/84] fix: the prefix cache drops entries which no longer
 match the index

---
 src/dict.cpp              | 66 ++++++++++++++++++++++++++++++++++++++-
 src/dict.h                |  6 ++++
 src/mb_rc.cpp             |  2 ++
 src/util/prefix_cache.cpp | 45 +++++++++++++++++++++++---
 src/util/prefix_cache.h   |  2 ++
 5 files changed, 116 insertions(+), 5 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 663f9c1..0b078b3 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -32,6 +32,10 @@
 
 #define DATA_HEADER_SIZE 32
 
+// lengths of the key prefixes stored in the prefix cache
+#define MIN_CACHED_PREFIX 2
+#define MAX_CACHED_PREFIX 4
+
 namespace mabain {
 
 Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
@@ -147,6 +151,18 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
             }
         }
     }
+    // The entries left in the embedded region by an earlier writer may not match
+    // the index. This writer does not necessarily maintain them either.
+    if ((options & CONSTS::ACCESS_MODE_WRITER) && header->pfxcache_size > 0) {
+        try {
+            if (prefix_cache)
+                prefix_cache->Clear();
+            else
+                PrefixCache(mbdir_, header, /*capacity hint*/65536).Clear();
+        } catch (...) {
+            Logger::Log(LOG_LEVEL_WARN, "failed to clear prefix cache");
+        }
+    }
     if (mm.IsValid())
         status = MBError::SUCCESS;
 }
@@ -312,6 +328,8 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
         return MBError::SUCCESS;
     }
 
+    InvalidateCachedKey(key, len);
+
     bool inc_count = true;
     int i;
     const uint8_t* key_buff;
@@ -350,6 +368,7 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                 ReserveData(data.buff, data.data_len, data.data_offset);
                 rval = mm.UpdateNode(edge_ptrs, key_cursor, len, data.data_offset);
             } else if (match_len < static_cast<int>(edge_ptrs.len_ptr[0])) {
+                InvalidateCachedEdge(key, static_cast<int>(key_cursor - key), edge_ptrs);
                 if (len > match_len) {
                     ReserveData(data.buff, data.data_len, data.data_offset);
                     rval = mm.AddLink(edge_ptrs, match_len, key_cursor + match_len, len - match_len,
@@ -362,6 +381,7 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                 rval = UpdateDataBuffer(edge_ptrs, overwrite, data, inc_count);
             }
         } else {
+            InvalidateCachedEdge(key, 0, edge_ptrs);
             ReserveData(data.buff, data.data_len, data.data_offset);
             rval = mm.AddLink(edge_ptrs, i, key_cursor + i, len - i, data.data_offset, data);
         }
@@ -370,6 +390,8 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
             if (key_buff[i - 1] != key[i])
                 break;
         }
+        if (i < len || edge_ptrs.len_ptr[0] > len)
+            InvalidateCachedEdge(key, 0, edge_ptrs);
         if (i < len) {
             ReserveData(data.buff, data.data_len, data.data_offset);
             rval = mm.AddLink(edge_ptrs, i, key_cursor + i, len - i, data.data_offset, data);
@@ -393,12 +415,46 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
             header->count++;
     }
     // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
-    if (rval == MBError::SUCCESS && prefix_cache) {
+    if (rval == MBError::SUCCESS && prefix_cache && !(data.options & CONSTS::OPTION_RC_MODE)) {
         SeedCanonicalBoundariesAfterAdd(key, orig_len, /*from_add=*/true);
     }
     return rval;
 }
 
+void Dict::InvalidateCachedKey(const uint8_t* key, int len)
+{
+    if (!prefix_cache)
+        return;
+    for (int depth = MIN_CACHED_PREFIX; depth <= MAX_CACHED_PREFIX && depth <= len; depth++)
+        prefix_cache->InvalidateAtDepth(key, depth);
+}
+
+void Dict::InvalidateCachedEdge(const uint8_t* key, int start, const EdgePtrs& edge_ptrs)
+{
+    if (!prefix_cache || start >= MAX_CACHED_PREFIX)
+        return;
+
+    // Only the first bytes of the edge string can be part of a cached prefix. The
+    // first byte of the root edge is not stored but always equal to key[0].
+    int end = start + edge_ptrs.len_ptr[0];
+    if (end > MAX_CACHED_PREFIX)
+        end = MAX_CACHED_PREFIX;
+    uint8_t prefix[MAX_CACHED_PREFIX];
+    memcpy(prefix, key, start + 1);
+    int tail_len = end - start - 1;
+    if (tail_len > 0) {
+        if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN) {
+            if (mm.ReadData(prefix + start + 1, tail_len, Get5BInteger(edge_ptrs.ptr)) != tail_len) {
+                ClearPrefixCache();
+                return;
+            }
+        } else {
+            memcpy(prefix + start + 1, edge_ptrs.ptr, tail_len);
+        }
+    }
+    InvalidateCachedKey(prefix, end);
+}
+
 void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool from_add) const
 {
     if (!prefix_cache)
@@ -975,6 +1031,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         rval = engine.find(key, len, data);
     }
     if (rval == MBError::IN_DICT) {
+        InvalidateCachedKey(key, len);
         rval = DeleteDataFromEdge(data, data.edge_ptrs);
         while (rval == MBError::TRY_AGAIN) {
             data.Clear();
@@ -1003,6 +1060,7 @@ int Dict::RemoveAll()
 {
     int rval = MBError::SUCCESS;
 
+    ClearPrefixCache();
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
@@ -1398,6 +1456,12 @@ void Dict::PrintPrefixCacheStats(std::ostream& os) const
     }
 }
 
+void Dict::ClearPrefixCache()
+{
+    if (prefix_cache)
+        prefix_cache->Clear();
+}
+
 PrefixCache* Dict::ActivePrefixCache() const
 {
     if (prefix_cache)
diff --git a/src/dict.h b/src/dict.h
index b0eadb0..0007d58 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -133,6 +133,8 @@ public:
     // Unified prefix cache (shared-memory backed): automatically enabled
     // when the DB was created with embedded cache. Readers attach if present.
     PrefixCache* ActivePrefixCache() const;
+    // Drop all prefix cache entries
+    void ClearPrefixCache();
 
 private:
     // Allow internal SearchEngine to orchestrate lookups without exposing members publicly
@@ -181,6 +183,10 @@ private:
     // using the final structure (mirrors reader warm). Applies to shared and
     // non-shared caches and detects boundary crossings within long edges.
     void SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool from_add = true) const;
+    // Drop the cache entries along a key, and of an edge which starts after the
+    // first start bytes of key. Must be called before an edge is modified.
+    void InvalidateCachedKey(const uint8_t* key, int len);
+    void InvalidateCachedEdge(const uint8_t* key, int start, const EdgePtrs& edge_ptrs);
 
     // Initialize the embedded prefix cache layout in the data file header
     // and set the starting data offset accordingly.
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e6b2597..5b1f67b 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -193,6 +193,8 @@ void ResourceCollection::ReclaimResource(int64_t min_index_size,
 
     if (min_index_size > 0 || min_data_size > 0) {
         Prepare(min_index_size, min_data_size);
+        // Edges and edge strings are moved from now on.
+        dict->ClearPrefixCache();
         Logger::Log(LOG_LEVEL_INFO, "defragmentation started for [index - %s] [data - %s]",
             rc_type & RESOURCE_COLLECTION_TYPE_INDEX ? "yes" : "no",
             rc_type & RESOURCE_COLLECTION_TYPE_DATA ? " yes" : "no");
diff --git a/src/util/prefix_cache.cpp b/src/util/prefix_cache.cpp
index 8df7c6f..147932b 100644
--- a/src/util/prefix_cache.cpp
+++ b/src/util/prefix_cache.cpp
@@ -369,7 +369,10 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
             uint32_t t4 = tag4[idx4].load(std::memory_order_acquire);
             if (t4 == p4) {
                 out = tab4[idx4];
-                return 4;
+                // The entry must not have been overwritten while it was copied.
+                std::atomic_thread_fence(std::memory_order_acquire);
+                if (valid4[idx4].load(std::memory_order_acquire) && tag4[idx4].load(std::memory_order_relaxed) == p4)
+                    return 4;
             }
         }
         // fall through to 3/2 below on miss or alias
@@ -382,7 +385,9 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
         uint32_t t3 = tag3[idx3].load(std::memory_order_acquire);
         if (t3 == (p3 + 1)) {
             out = tab3[idx3];
-            return 3;
+            std::atomic_thread_fence(std::memory_order_acquire);
+            if (tag3[idx3].load(std::memory_order_relaxed) == t3)
+                return 3;
         }
         // Fall back to 2-byte table using lower 2 bytes of p3 (LE)
         uint16_t p2 = static_cast<uint16_t>(p3 & 0xFFFFu);
@@ -390,7 +395,9 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
         uint32_t t2 = tag2[idx2].load(std::memory_order_acquire);
         if ((full2 && t2) || (!full2 && t2 == (static_cast<uint32_t>(p2) + 1))) {
             out = tab2[idx2];
-            return 2;
+            std::atomic_thread_fence(std::memory_order_acquire);
+            if (tag2[idx2].load(std::memory_order_relaxed) == t2)
+                return 2;
         }
         return 0;
     }
@@ -401,7 +408,9 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
         uint32_t t2 = tag2[idx2].load(std::memory_order_acquire);
         if ((full2 && t2) || (!full2 && t2 == (static_cast<uint32_t>(p2) + 1))) {
             out = tab2[idx2];
-            return 2;
+            std::atomic_thread_fence(std::memory_order_acquire);
+            if (tag2[idx2].load(std::memory_order_relaxed) == t2)
+                return 2;
         }
     }
     return 0;
@@ -504,6 +513,34 @@ void PrefixCache::PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEnt
     }
 }
 
+// Drop the cached entry at a specific prefix depth (2/3/4).
+// Must be called by the writer before the cached edge is modified or moved.
+void PrefixCache::InvalidateAtDepth(const uint8_t* key, int depth)
+{
+    if (depth == 4 && cap4 > 0) {
+        uint32_t p4;
+        if (build4(key, 4, p4)) {
+            size_t idx4 = static_cast<size_t>(p4) & mask4;
+            if (tag4[idx4].load(std::memory_order_relaxed) == p4)
+                valid4[idx4].store(0, std::memory_order_release);
+        }
+    } else if (depth == 3 && cap3 > 0) {
+        uint32_t p3;
+        if (build3(key, 3, p3)) {
+            size_t idx3 = static_cast<size_t>(p3) & mask3;
+            if (tag3[idx3].load(std::memory_order_relaxed) == p3 + 1)
+                tag3[idx3].store(0, std::memory_order_release);
+        }
+    } else if (depth == 2) {
+        uint16_t p2;
+        if (build2(key, 2, p2)) {
+            size_t idx2 = static_cast<size_t>(p2) & mask2;
+            if (tag2[idx2].load(std::memory_order_relaxed) == static_cast<uint32_t>(p2) + 1)
+                tag2[idx2].store(0, std::memory_order_release);
+        }
+    }
+}
+
 // Total number of populated entries across all tables (best-effort, no locking).
 size_t PrefixCache::Size() const { return Size2() + Size3() + Size4(); }
 
diff --git a/src/util/prefix_cache.h b/src/util/prefix_cache.h
index 520da8e..4d8f823 100644
--- a/src/util/prefix_cache.h
+++ b/src/util/prefix_cache.h
@@ -78,6 +78,8 @@ public:
 
     void Put(const uint8_t* key, int len, const PrefixCacheEntry& in);
     void PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEntry& in);
+    // Drop the cached entry of the 2/3/4-byte prefix of key
+    void InvalidateAtDepth(const uint8_t* key, int depth);
     int GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) const;
     // Report the maximum prefix length this cache can seed from (3 bytes reported for compatibility)
     int PrefixLen() const { return 3; }
-- 
2.43.0


From 3970265976a86f8778c669a8a75f76b4e5da47ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:47 +0000
Subject: [PATCH 16/84] fix: async queue slots are acquired and processed
 strictly in order

---
 src/async_writer.cpp | 40 +++++++++++++++++++++++++++++-----------
 src/async_writer.h   |  4 +++-
 src/drm_base.h       |  2 +-
 src/shmq_update.cpp  | 28 +++++++++++++---------------
 4 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index a02514c..0ee3e3c 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -164,10 +164,7 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 break;
             }
 
-            header->writer_index++;
-            node_ptr->num_reader.store(0, std::memory_order_release);
-            node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-            node_ptr->in_use.store(false, std::memory_order_release);
+            ReleaseSlot(node_ptr);
             mbd.Clear();
             count++;
         } else {
@@ -203,6 +200,17 @@ uint32_t AsyncWriter::NextShmSlot(uint32_t windex, uint32_t qindex)
     return windex;
 }
 
+void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
+{
+    uint32_t windex = header->writer_index;
+    node_ptr->num_reader.store(0, std::memory_order_release);
+    node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
+    node_ptr->in_use.store(false, std::memory_order_release);
+    // A slot filled after it was skipped must not move the writer index past the queue index.
+    if (windex != header->queue_index.load(std::memory_order_acquire))
+        header->writer_index = windex + 1;
+}
+
 void* AsyncWriter::async_writer_thread()
 {
     AsyncNode* node_ptr;
@@ -213,6 +221,7 @@ void* AsyncWriter::async_writer_thread()
     int64_t max_dbsize = MAX_6B_OFFSET;
     int64_t max_dbcount = MAX_6B_OFFSET;
     bool skip;
+    time_t unfilled_since;
     MBPipe mbp(db->GetDBDir(), CONSTS::ACCESS_MODE_WRITER);
 
     Logger::Log(LOG_LEVEL_DEBUG, "async writer started");
@@ -227,6 +236,7 @@ void* AsyncWriter::async_writer_thread()
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
         skip = false;
+        unfilled_since = 0;
         while (!node_ptr->in_use.load(std::memory_order_consume)) {
             if (stop_processing) {
                 skip = true;
@@ -236,9 +246,20 @@ void* AsyncWriter::async_writer_thread()
 #define __ASYNC_THREAD_SLEEP_TIME 1000
             mbp.Wait(__ASYNC_THREAD_SLEEP_TIME);
 
-            auto windex = header->writer_index;
-            auto qindex = header->queue_index.load(std::memory_order_consume);
-            if (windex != qindex) {
+            uint32_t windex = header->writer_index;
+            uint32_t qindex = header->queue_index.load(std::memory_order_acquire);
+            if (windex == qindex || node_ptr->in_use.load(std::memory_order_acquire)) {
+                unfilled_since = 0;
+                continue;
+            }
+            // The slot has been acquired but is not filled yet. The updates must be run in
+            // the order of the queue.
+            timeval now;
+            gettimeofday(&now, NULL);
+            if (unfilled_since == 0) {
+                unfilled_since = now.tv_sec;
+            } else if (now.tv_sec - unfilled_since > MB_ASYNC_SHM_LOCK_TMOUT
+                || now.tv_sec < unfilled_since) {
                 // Reader process may have exited unexpectedly. Recover index.
                 skip = true;
                 header->writer_index = NextShmSlot(windex, qindex);
@@ -316,10 +337,7 @@ void* AsyncWriter::async_writer_thread()
             break;
         }
 
-        header->writer_index++;
-        node_ptr->num_reader.store(0, std::memory_order_release);
-        node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-        node_ptr->in_use.store(false, std::memory_order_release);
+        ReleaseSlot(node_ptr);
 
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
diff --git a/src/async_writer.h b/src/async_writer.h
index 56f6db9..5a694a6 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -19,6 +19,7 @@
 #ifndef __ASYNC_WRITER_H__
 #define __ASYNC_WRITER_H__
 
+#include <atomic>
 #include <mutex>
 #include <pthread.h>
 
@@ -49,6 +50,7 @@ private:
     int PrepareSlot(AsyncNode* node_ptr) const;
     void* async_writer_thread();
     uint32_t NextShmSlot(uint32_t windex, uint32_t qindex);
+    void ReleaseSlot(AsyncNode* node_ptr);
 
     // db pointer
     DB* db;
@@ -56,7 +58,7 @@ private:
 
     // thread id
     pthread_t tid;
-    bool stop_processing;
+    std::atomic<bool> stop_processing;
 
     AsyncNode* queue;
     IndexHeader* header;
diff --git a/src/drm_base.h b/src/drm_base.h
index c9134aa..a87f20c 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -209,7 +209,7 @@ typedef struct _IndexHeader {
     // multi-process async queue
     int async_queue_size;
     std::atomic<uint32_t> queue_index;
-    uint32_t writer_index;
+    std::atomic<uint32_t> writer_index;
     std::atomic<uint32_t> rc_flag;
 
     // Embedded prefix cache (fixed capacity, set at DB initialization)
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 6bd1cdb..2156953 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -114,21 +114,19 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
-    uint32_t index = header->queue_index.fetch_add(1, std::memory_order_release);
-    AsyncNode* node_ptr = queue + (index % header->async_queue_size);
-
-    if (node_ptr->in_use.load(std::memory_order_consume)) {
-        // This slot is being processed by writer.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
-    }
-
-    uint16_t nreader = node_ptr->num_reader.fetch_add(1, std::memory_order_release);
-    if (nreader != 0) {
-        // This slot is being processed by another reader.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
-    }
+    AsyncNode* node_ptr;
+    uint32_t index = header->queue_index.load(std::memory_order_acquire);
+    do {
+        node_ptr = queue + (index % header->async_queue_size);
+        // The index must not be advanced if the queue is full. The writer would be left
+        // waiting for a slot which nobody is going to fill.
+        if (node_ptr->in_use.load(std::memory_order_acquire)
+            || index - header->writer_index >= static_cast<uint32_t>(header->async_queue_size)) {
+            err = MBError::TRY_AGAIN;
+            return nullptr;
+        }
+    } while (!header->queue_index.compare_exchange_weak(index, index + 1, std::memory_order_acq_rel,
+        std::memory_order_acquire));
 
     return node_ptr;
 }
-- 
2.43.0


From e30219539f79d4d38284926cc3422b4c8f451f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 17/84] fix: a new db drops updates left in a queue file of
 another db

---
 src/dict.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0b078b3..281f510 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -75,6 +75,14 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
         // initialize shared memory queue
         slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
         queue = slaq->queue;
+        if (init_header) {
+            // The queue file may be left over by another DB which had the same queue id.
+            for (uint32_t i = 0; i < queue_size; i++) {
+                queue[i].type = MABAIN_ASYNC_TYPE_NONE;
+                queue[i].num_reader.store(0, std::memory_order_relaxed);
+                queue[i].in_use.store(false, std::memory_order_release);
+            }
+        }
     }
     lfree.LockFreeInit(&header->lock_free, header, db_options);
     mm.InitLockFreePtr(&lfree);
-- 
2.43.0


From 26e1b37d6bce76ef5b8f5142a3f0465beef00643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 18/84] fix: updates are never sent to the async writer of
 another or closed db

---
 src/async_writer.cpp | 7 +++++++
 src/async_writer.h   | 1 +
 src/db.cpp           | 8 +++++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 0ee3e3c..e03214e 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -77,6 +77,13 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
 
 AsyncWriter::~AsyncWriter()
 {
+    if (writer_instance == this)
+        writer_instance = NULL;
+}
+
+bool AsyncWriter::IsWriterOf(const std::string& db_dir) const
+{
+    return db->GetDBDir() == db_dir;
 }
 
 int AsyncWriter::StopAsyncThread()
diff --git a/src/async_writer.h b/src/async_writer.h
index 5a694a6..b496ad6 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -38,6 +38,7 @@ public:
 
     int StopAsyncThread();
     int ProcessTask(int ntasks, bool rc_mode);
+    bool IsWriterOf(const std::string& db_dir) const;
     int AddWithLock(const char* key, int len, MBData& mbdata, bool overwrite);
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
diff --git a/src/db.cpp b/src/db.cpp
index 1b40f32..dfe743e 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1008,7 +1008,13 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
         rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
     } else {
-        AsyncWriter* awr = AsyncWriter::GetInstance();
+        AsyncWriter* awr = async_writer;
+        if (awr == NULL) {
+            awr = AsyncWriter::GetInstance();
+            // The last async writer created in this process may belong to another db.
+            if (awr != NULL && !awr->IsWriterOf(mb_dir))
+                awr = NULL;
+        }
         if (awr) {
             try {
                 rval = awr->AddWithLock(key, len, mbdata, overwrite);
-- 
2.43.0


From a3949eaa5000a1e5c3d08b5eb67d75029e883ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 19/84] fix: updates through the async writer do not overtake
 queued updates

---
 src/async_writer.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index e03214e..d48aa7b 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -397,10 +397,15 @@ int AsyncWriter::AddWithLock(const char* key, int len, MBData& mbdata, bool over
     using Ms = std::chrono::milliseconds;
     if (writer_lock.try_lock_for(Ms(1000))) {
         int rval;
-        try {
-            rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
-        } catch (int error) {
-            rval = error;
+        // Updates already in the queue must be run first.
+        if (header->queue_index.load(std::memory_order_acquire) != header->writer_index) {
+            rval = MBError::TRY_AGAIN;
+        } else {
+            try {
+                rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+            } catch (int error) {
+                rval = error;
+            }
         }
         writer_lock.unlock();
         return rval;
-- 
2.43.0


From 20a9d5829f8cc6b5ddaa903edf028fc79c53dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 20/84] fix: removals and backups queued during resource
 collection are not dropped

---
 src/async_writer.cpp | 35 ++++-------------------------------
 src/async_writer.h   |  1 -
 2 files changed, 4 insertions(+), 32 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index d48aa7b..f129fee 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -66,7 +66,6 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
     queue = dict->GetAsyncQueuePtr();
     header->rc_flag.store(0, std::memory_order_release);
 
-    rc_backup_dir = NULL;
     // start the thread
     if (pthread_create(&tid, NULL, async_thread_wrapper, this) != 0) {
         Logger::Log(LOG_LEVEL_ERROR, "failed to create async thread");
@@ -135,21 +134,11 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 // header->m_index_offset. This causes exception thrown from DictMem::WriteData.
                 // Note this is not a problem for Dict::Add since Add does not modify buffers in high end.
                 // This problem will be fixed when resolving issue: https://github.com/chxdeng/mabain/issues/21
-                rval = MBError::SUCCESS;
-                break;
             case MABAIN_ASYNC_TYPE_REMOVE_ALL:
-                if (!rc_mode) {
-                    try {
-                        rval = dict->RemoveAll();
-                    } catch (int err) {
-                        Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
-                            MBError::get_error_str(err));
-                        rval = err;
-                    }
-                } else {
-                    rval = MBError::SUCCESS;
-                }
-                break;
+            case MABAIN_ASYNC_TYPE_BACKUP:
+                // Leave these tasks, and everything behind them, in the queue until
+                // rc or eviction is done.
+                return stop_processing ? MBError::RC_SKIPPED : MBError::SUCCESS;
             case MABAIN_ASYNC_TYPE_RC:
                 // ignore rc task since it is running already.
                 rval = MBError::RC_SKIPPED;
@@ -157,15 +146,6 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
             case MABAIN_ASYNC_TYPE_NONE:
                 rval = MBError::SUCCESS;
                 break;
-            case MABAIN_ASYNC_TYPE_BACKUP:
-                // clean up existing backup dir varibale buffer.
-                if (rc_backup_dir != NULL)
-                    free(rc_backup_dir);
-                rc_backup_dir = (char*)malloc(node_ptr->data_len + 1);
-                memcpy(rc_backup_dir, node_ptr->data, node_ptr->data_len);
-                rc_backup_dir[node_ptr->data_len] = '\0';
-                rval = MBError::SUCCESS;
-                break;
             default:
                 rval = MBError::INVALID_ARG;
                 break;
@@ -368,13 +348,6 @@ void* AsyncWriter::async_writer_thread()
             writer_lock.unlock();
 
             header->rc_flag.store(0, std::memory_order_release);
-            if (rc_backup_dir != NULL) {
-                if (rval == MBError::SUCCESS) {
-                    dict->SHMQ_Backup(rc_backup_dir);
-                }
-                free(rc_backup_dir);
-                rc_backup_dir = NULL;
-            }
         }
     }
 
diff --git a/src/async_writer.h b/src/async_writer.h
index b496ad6..1515db7 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -65,7 +65,6 @@ private:
     IndexHeader* header;
 
     bool is_rc_running;
-    char* rc_backup_dir;
 
     std::timed_mutex writer_lock;
     static AsyncWriter* writer_instance;
-- 
2.43.0


From a5355677f8e989e5dbfba5bba86fe0dd1bda4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:49 +0000
Subject: [PATCH 21/84] fix: updates made during resource collection keep their
 order and overwrite mode

---
 src/async_writer.cpp         | 12 ++++++++++++
 src/detail/search_engine.cpp |  3 ++-
 src/mb_rc.cpp                |  6 +-----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index f129fee..313f155 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -21,6 +21,7 @@
 #include <unistd.h>
 
 #include "async_writer.h"
+#include "detail/search_engine.h"
 #include "dict.h"
 #include "error.h"
 #include "integer_4b_5b.h"
@@ -118,6 +119,17 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 mbd.buff = (uint8_t*)node_ptr->data;
                 mbd.data_len = node_ptr->data_len;
                 try {
+                    // The entry may only exist in the main tree, in which case the rc tree
+                    // must not get another one. It would replace the existing entry.
+                    if (rc_mode && !node_ptr->overwrite) {
+                        MBData existing;
+                        detail::SearchEngine engine(*dict);
+                        rval = engine.find((uint8_t*)node_ptr->key, node_ptr->key_len, existing);
+                        if (rval == MBError::SUCCESS) {
+                            rval = MBError::IN_DICT;
+                            break;
+                        }
+                    }
                     rval = dict->Add((uint8_t*)node_ptr->key, node_ptr->key_len, mbd, node_ptr->overwrite);
                 } catch (int err) {
                     rval = err;
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 8974a4e..e6ef8f3 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -98,7 +98,8 @@ namespace detail {
             return rval;
 
         // Prefer the longer match: copy value and match_len when rc-path wins.
-        if (data_rc.match_len > data.match_len) {
+        // The entry in the rc tree is the latest one if both have the same key.
+        if (data_rc.match_len > 0 && data_rc.match_len >= data.match_len) {
             uint8_t* value = nullptr;
             int value_len = 0;
             rval = data_rc.TransferValueTo(value, value_len);
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 5b1f67b..1c00d59 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1018,7 +1018,7 @@ void ResourceCollection::ProcessRCTree()
 {
     Logger::Log(LOG_LEVEL_INFO, "resource collection done, traversing the rc tree %llu entries", header->rc_count);
 
-    int count = 0;
+    // Updates in the queue are newer than the entries of the rc tree. They have to wait.
     int rval;
     DB db_itr(db_ref);
     for (DB::iterator iter = db_itr.begin(false, true); iter != db_itr.end(); ++iter) {
@@ -1026,10 +1026,6 @@ void ResourceCollection::ProcessRCTree()
         rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
-        if (count++ > RC_TASK_CHECK) {
-            count = 0;
-            async_writer_ptr->ProcessTask(NUM_ASYNC_TASK, false);
-        }
 
         if (header->m_index_offset > rc_index_offset || header->m_data_offset > rc_data_offset) {
             Logger::Log(LOG_LEVEL_ERROR, "not enough space for insertion: %llu, %llu",
-- 
2.43.0


From 17d74623b5e00e72636d1590b05134b436736264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 22/84] fix: backup and RemoveAllSync exclude concurrent
 updates in async mode

---
 src/async_writer.cpp | 15 +++++++++++++++
 src/async_writer.h   |  1 +
 src/db.cpp           |  3 +++
 3 files changed, 19 insertions(+)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 313f155..fb0a856 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -324,12 +324,14 @@ void* AsyncWriter::async_writer_thread()
             rval = MBError::SUCCESS;
             break;
         case MABAIN_ASYNC_TYPE_BACKUP:
+            writer_lock.lock();
             try {
                 DBBackup mbbk(*db);
                 rval = mbbk.Backup((const char*)node_ptr->data);
             } catch (int error) {
                 rval = error;
             }
+            writer_lock.unlock();
             break;
         default:
             rval = MBError::INVALID_ARG;
@@ -374,6 +376,19 @@ void* AsyncWriter::async_thread_wrapper(void* context)
     return instance_ptr->async_writer_thread();
 }
 
+int AsyncWriter::RemoveAllWithLock()
+{
+    int rval;
+    writer_lock.lock();
+    try {
+        rval = dict->RemoveAll();
+    } catch (int error) {
+        rval = error;
+    }
+    writer_lock.unlock();
+    return rval;
+}
+
 int AsyncWriter::AddWithLock(const char* key, int len, MBData& mbdata, bool overwrite)
 {
     if (header->rc_flag.load(std::memory_order_relaxed))
diff --git a/src/async_writer.h b/src/async_writer.h
index 1515db7..ed48456 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -39,6 +39,7 @@ public:
     int StopAsyncThread();
     int ProcessTask(int ntasks, bool rc_mode);
     bool IsWriterOf(const std::string& db_dir) const;
+    int RemoveAllWithLock();
     int AddWithLock(const char* key, int len, MBData& mbdata, bool overwrite);
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
diff --git a/src/db.cpp b/src/db.cpp
index dfe743e..7b849c3 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1134,6 +1134,9 @@ int DB::RemoveAllSync()
         return MBError::NOT_INITIALIZED;
     if (!(options & CONSTS::ACCESS_MODE_WRITER))
         return MBError::NOT_ALLOWED;
+    // The async writer thread may be updating the db.
+    if (async_writer != NULL)
+        return async_writer->RemoveAllWithLock();
     int rval = dict->RemoveAll();
     return rval;
 }
-- 
2.43.0


From c6403cff30cf9ef88f4a6e016c37b3318ced67ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 23/84] fix: invalid updates are rejected before they are
 queued

---
 src/shmq_update.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 2156953..56614e7 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -29,7 +29,7 @@ namespace mabain {
 int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
     bool overwrite)
 {
-    if (key_len > MB_ASYNC_SHM_KEY_SIZE || data_len > MB_ASYNC_SHM_DATA_SIZE) {
+    if (key_len > MB_ASYNC_SHM_KEY_SIZE || data_len > MB_ASYNC_SHM_DATA_SIZE || key_len <= 0 || data_len <= 0) {
         return MBError::OUT_OF_BOUND;
     }
 
@@ -50,7 +50,7 @@ int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
 
 int Dict::SHMQ_Remove(const char* key, int len)
 {
-    if (len > MB_ASYNC_SHM_KEY_SIZE)
+    if (len > MB_ASYNC_SHM_KEY_SIZE || len <= 0)
         return MBError::OUT_OF_BOUND;
 
     int err = MBError::SUCCESS;
@@ -114,6 +114,12 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
+    // The queue is not available in read-only mode.
+    if (queue == NULL) {
+        err = MBError::NOT_ALLOWED;
+        return nullptr;
+    }
+
     AsyncNode* node_ptr;
     uint32_t index = header->queue_index.load(std::memory_order_acquire);
     do {
-- 
2.43.0


From 645c77b9e999b6e640e45781486e76ebfa208f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:33 +0000
Subject: [PATCH 24/84] fix: a copied or restored db does not share the queue
 of its source

---
 src/db.cpp   |  2 ++
 src/dict.cpp | 29 ++++++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 7b849c3..1c9ff02 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1274,6 +1274,8 @@ int DB::ClearLock() const
     // No db handler should hold mutex when this is called.
     if (status != MBError::SUCCESS)
         return status;
+    if (dict->GetShmLockPtr() == NULL)
+        return MBError::NOT_ALLOWED;
     return InitShmMutex(dict->GetShmLockPtr());
 }
 
diff --git a/src/dict.cpp b/src/dict.cpp
index 281f510..006bab5 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -29,6 +29,7 @@
 #include "integer_4b_5b.h"
 #include "mabain_consts.h"
 #include "util/prefix_cache.h"
+#include "util/utils.h"
 
 #define DATA_HEADER_SIZE 32
 
@@ -73,9 +74,27 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
 
     if (!(db_options & CONSTS::READ_ONLY_DB)) {
         // initialize shared memory queue
-        slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
-        queue = slaq->queue;
-        if (init_header) {
+        bool reset_queue = init_header;
+        bool own_queue = true;
+        if (!(db_options & CONSTS::MEMORY_ONLY_MODE)) {
+            int64_t queue_id = get_file_inode(mbdir + "_mabain_h");
+            if (header->shm_queue_id != queue_id) {
+                // The DB is a copy or backup. It must not use the queue of the DB it was copied from.
+                if (options & CONSTS::ACCESS_MODE_WRITER) {
+                    header->shm_queue_id = queue_id;
+                    header->queue_index.store(0, std::memory_order_release);
+                    header->writer_index = 0;
+                    reset_queue = true;
+                } else {
+                    own_queue = false;
+                }
+            }
+        }
+        if (own_queue) {
+            slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
+            queue = slaq->queue;
+        }
+        if (reset_queue) {
             // The queue file may be left over by another DB which had the same queue id.
             for (uint32_t i = 0; i < queue_size; i++) {
                 queue[i].type = MABAIN_ASYNC_TYPE_NONE;
@@ -1097,12 +1116,12 @@ int Dict::RemoveAll()
 
 pthread_mutex_t* Dict::GetShmLockPtr() const
 {
-    return &(slaq->lock);
+    return slaq == NULL ? NULL : &(slaq->lock);
 }
 
 AsyncNode* Dict::GetAsyncQueuePtr() const
 {
-    return slaq->queue;
+    return slaq == NULL ? NULL : slaq->queue;
 }
 
 // Reserve buffer and write to it
-- 
2.43.0


From 6b831b3cb826d6c9aa8068e0d7fd55f8a0c129b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:23 +0000
Subject: [PATCH 25/84] fix: the queue of a memory-only db is private to it

---
 src/dict.cpp          |  2 +-
 src/shm_queue_mgr.cpp | 14 ++++++++++----
 src/shm_queue_mgr.h   |  4 +++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 006bab5..0e11171 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -91,7 +91,7 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
             }
         }
         if (own_queue) {
-            slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
+            slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options, mbdir);
             queue = slaq->queue;
         }
         if (reset_queue) {
diff --git a/src/shm_queue_mgr.cpp b/src/shm_queue_mgr.cpp
index b607efe..08db03e 100644
--- a/src/shm_queue_mgr.cpp
+++ b/src/shm_queue_mgr.cpp
@@ -43,18 +43,24 @@ void ShmQueueMgr::InitShmObjects(shm_lock_and_queue* slaq, int queue_size)
 }
 
 shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
-    const char* queue_dir, int options)
+    const char* queue_dir, int options, const std::string& mbdir)
 {
     if (qsize > MB_MAX_NUM_SHM_QUEUE_NODE)
         throw (int)MBError::INVALID_SIZE;
     std::string qfile_path;
-    if (queue_dir != NULL)
+    // The header of a memory-only DB is not a file and has no inode. Its queue is only
+    // used in this process as well.
+    if (options & CONSTS::MEMORY_ONLY_MODE)
+        qfile_path = mbdir + "_mabain_q";
+    else if (queue_dir != NULL)
         qfile_path = std::string(queue_dir) + "/_mabain_q" + std::to_string(qid);
     else
         qfile_path = "/dev/shm/_mabain_q" + std::to_string(qid);
 
     bool init_queue = false;
-    if (access(qfile_path.c_str(), F_OK))
+    if (options & CONSTS::MEMORY_ONLY_MODE)
+        init_queue = !ResourcePool::getInstance().CheckExistence(qfile_path);
+    else if (access(qfile_path.c_str(), F_OK))
         init_queue = true;
 
     bool map_qfile = true;
@@ -62,7 +68,7 @@ shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
     if (qsize < MB_MAX_NUM_SHM_QUEUE_NODE)
         q_buff_size -= sizeof(AsyncNode) * (MB_MAX_NUM_SHM_QUEUE_NODE - qsize);
     qfile = ResourcePool::getInstance().OpenFile(qfile_path,
-        CONSTS::ACCESS_MODE_WRITER,
+        CONSTS::ACCESS_MODE_WRITER | (options & CONSTS::MEMORY_ONLY_MODE),
         q_buff_size,
         map_qfile,
         options & CONSTS::ACCESS_MODE_WRITER);
diff --git a/src/shm_queue_mgr.h b/src/shm_queue_mgr.h
index 4cae61f..6d17477 100644
--- a/src/shm_queue_mgr.h
+++ b/src/shm_queue_mgr.h
@@ -21,6 +21,7 @@
 
 #include <atomic>
 #include <iostream>
+#include <string>
 
 #include "db.h"
 #include "drm_base.h"
@@ -60,7 +61,8 @@ class ShmQueueMgr {
 public:
     ShmQueueMgr();
     ~ShmQueueMgr();
-    shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options);
+    shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options,
+        const std::string& mbdir);
     void PrintStats(std::ostream& out_stream, const IndexHeader* hdr) const;
 
 private:
-- 
2.43.0


From ea0b6352b9ca5dd7dde84ad14816083564e704bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 26/84] fix: re-creating a db does not remove the queues of
 other dbs

---
 src/db.cpp         | 2 +-
 src/util/utils.cpp | 9 +++++++--
 src/util/utils.h   | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 1c9ff02..8a5f03f 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -741,7 +741,7 @@ void DB::ReInit(MBConfig& config)
     std::cout << "erase corrupted DB and retry\n";
     Close();
     std::string db_dir = std::string(config.mbdir);
-    remove_db_files(db_dir);
+    remove_db_files(db_dir, config.queue_dir);
     status = MBError::NOT_INITIALIZED;
     InitDBEx(config);
 }
diff --git a/src/util/utils.cpp b/src/util/utils.cpp
index c67497a..9b598f5 100644
--- a/src/util/utils.cpp
+++ b/src/util/utils.cpp
@@ -119,9 +119,14 @@ static int remove_matched_files(const std::string& dpath, const std::string& pat
     return MBError::SUCCESS;
 }
 
-int remove_db_files(const std::string& db_dir)
+int remove_db_files(const std::string& db_dir, const char* queue_dir)
 {
-    remove_matched_files("/dev/shm", "_mabain_q");
+    // Other DBs may be in use. Only remove the queue of this DB.
+    uint64_t qid = get_file_inode(db_dir + "/_mabain_h");
+    if (qid != 0) {
+        std::string qdir = queue_dir != NULL ? queue_dir : "/dev/shm";
+        std::remove((qdir + "/_mabain_q" + std::to_string(qid)).c_str());
+    }
     remove_matched_files(db_dir, "_mabain_");
     return 0;
 }
diff --git a/src/util/utils.h b/src/util/utils.h
index 7a5ac84..c0c1297 100644
--- a/src/util/utils.h
+++ b/src/util/utils.h
@@ -28,7 +28,7 @@ int acquire_file_lock_wait_n(const std::string& lock_file_path, int ntry);
 void release_file_lock(int& fd);
 uint64_t get_file_inode(const std::string& path);
 bool directory_exists(const std::string& path);
-int remove_db_files(const std::string& db_dir);
+int remove_db_files(const std::string& db_dir, const char* queue_dir = NULL);
 
 }
 
-- 
2.43.0


From b67f5eeddca208723ac0d804947f82770757bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 27/84] fix: ClearResources does not drop the resources of
 other dbs

---
 src/resource_pool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index c2f8233..f37cfda 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -66,7 +66,10 @@ void ResourcePool::RemoveResourceByDB(const std::string& db_path)
     pthread_mutex_lock(&pool_mutex);
 
     for (auto it = file_pool.begin(); it != file_pool.end();) {
-        if (it->first.compare(0, db_path.size(), db_path) == 0)
+        // Do not match other DBs whose path starts with the same string.
+        if (it->first.compare(0, db_path.size(), db_path) == 0
+            && (it->first.size() == db_path.size() || db_path.empty() || db_path.back() == '/'
+                || it->first[db_path.size()] == '/'))
             it = file_pool.erase(it);
         else
             it++;
-- 
2.43.0


From fd1d1fbe10e998ceb4e5fb996ed3508c3c2657d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 28/84] fix: a failed backup returns an error instead of ending
 the process

---
 src/mb_backup.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a6a5525..1a2833f 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -19,6 +19,7 @@
 #include <fstream>
 #include <iostream>
 #include <limits.h>
+#include <memory>
 #include <sstream>
 
 #include "integer_4b_5b.h"
@@ -53,12 +54,12 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
 
     if ((fp_read = fopen(src_path.c_str(), "rb")) == NULL) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", src_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
     if ((fp_write = fopen(dest_path.c_str(), "wb")) == NULL) {
         fclose(fp_read);
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
 
     int rval = MBError::SUCCESS;
@@ -81,7 +82,8 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
         }
     }
     fclose(fp_read);
-    fclose(fp_write);
+    if (fclose(fp_write) != 0 && rval == MBError::SUCCESS)
+        rval = MBError::WRITE_ERROR;
 
     if (rval != MBError::SUCCESS) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed %s", MBError::get_error_str(rval));
@@ -115,7 +117,8 @@ int DBBackup::Backup(const char* bk_dir)
     num_data_files = (header->m_data_offset / header->data_block_size) + 1;
     num_index_files = (header->m_index_offset / header->index_block_size) + 1;
 
-    char* buffer = (char*)malloc(BLOCK_SIZE_ALIGN);
+    std::unique_ptr<char, decltype(&free)> buffer_ptr((char*)malloc(BLOCK_SIZE_ALIGN), free);
+    char* buffer = buffer_ptr.get();
     if (buffer == NULL)
         throw (int)MBError::NO_MEMORY;
 
@@ -145,8 +148,6 @@ int DBBackup::Backup(const char* bk_dir)
     // header is size of page_size
     copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
 
-    free(buffer);
-
     // reset number readers/writers in backed up DB.
     int rval;
     DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
-- 
2.43.0


From df4176a7711d9bcc99cf868a31f3f7ab9a3dadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 29/84] fix: a backup has all the block files of the db

---
 src/mb_backup.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index 1a2833f..30800d1 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -91,6 +91,14 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
     }
 }
 
+static int count_files(const std::string& path_base)
+{
+    int count = 0;
+    while (access((path_base + std::to_string(count)).c_str(), F_OK) == 0)
+        count++;
+    return count;
+}
+
 int DBBackup::Backup(const char* bk_dir)
 {
     if (bk_dir == NULL)
@@ -114,8 +122,15 @@ int DBBackup::Backup(const char* bk_dir)
 
     int num_data_files, num_index_files;
     // get the number of files from the header: max_bytes/number_of_bytes_per_file
-    num_data_files = (header->m_data_offset / header->data_block_size) + 1;
-    num_index_files = (header->m_index_offset / header->index_block_size) + 1;
+    if (db_ref.GetDBOptions() & CONSTS::OPTION_JEMALLOC) {
+        // The offsets in the header do not cover all the buffers in jemalloc mode.
+        num_data_files = count_files(db_ref.GetDBDir() + "/_mabain_d");
+        num_index_files = count_files(db_ref.GetDBDir() + "/_mabain_i");
+    } else {
+        // The next block file may not exist if the offset is at the end of a block.
+        num_data_files = 1 + (header->m_data_offset > 0 ? (header->m_data_offset - 1) / header->data_block_size : 0);
+        num_index_files = 1 + (header->m_index_offset > 0 ? (header->m_index_offset - 1) / header->index_block_size : 0);
+    }
 
     std::unique_ptr<char, decltype(&free)> buffer_ptr((char*)malloc(BLOCK_SIZE_ALIGN), free);
     char* buffer = buffer_ptr.get();
-- 
2.43.0


From 69ccdf05f866582d940dbe5fa82e36cedf0f73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:24 +0000
Subject: [PATCH 30/84] fix: Backup of a synchronous writer is not sent to the
 async queue

---
 src/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 8a5f03f..6b35669 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1156,7 +1156,7 @@ int DB::Backup(const char* bk_dir)
         return MBError::NOT_ALLOWED;
 
     try {
-        if (async_writer == NULL && (options & CONSTS::ASYNC_WRITER_MODE)) {
+        if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
             DBBackup bk(*this);
             rval = bk.Backup(bk_dir);
         } else {
-- 
2.43.0


From 7b1e5f57eb4b37c6f9710c86975d6d2ab61c7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:11 +0000
Subject: [PATCH 31/84] fix: CollectResource reports a request which could not
 be queued

---
 src/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 6b35669..0c930b5 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1209,7 +1209,7 @@ int DB::CollectResource(int64_t min_index_rc_size, int64_t min_data_rc_size,
             ResourceCollection rc(*this);
             rc.ReclaimResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
         } else {
-            dict->SHMQ_CollectResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
+            return dict->SHMQ_CollectResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
         }
     } catch (int error) {
         if (error != MBError::RC_SKIPPED) {
-- 
2.43.0


From 14270308aa2a02aadb6b8167c304429baa776757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:09 +0000
Subject: [PATCH 32/84] fix: a process is not ended by SIGPIPE when the async
 writer exits

---
 src/mb_pipe.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index d50bc9c..b6ee006 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -17,6 +17,7 @@
 // @author Changxue Deng <chadeng@cisco.com>
 
 #include <fcntl.h>
+#include <signal.h>
 #include <poll.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -128,6 +129,31 @@ void MBPipe::Wait(int timeout)
     } while (nread == __MB_ASYNC_READ_BUFFER_SIZE);
 }
 
+static int WriteNoSigPipe(int fd)
+{
+    sigset_t pipe_set, old_set, pending_set;
+    sigemptyset(&pipe_set);
+    sigaddset(&pipe_set, SIGPIPE);
+    sigpending(&pending_set);
+    bool was_pending = sigismember(&pending_set, SIGPIPE) == 1;
+    pthread_sigmask(SIG_BLOCK, &pipe_set, &old_set);
+
+    int nwritten = write(fd, "", 1);
+    int err = errno;
+    if (nwritten < 0 && err == EPIPE && !was_pending) {
+        // Discard the signal generated by the write.
+        sigpending(&pending_set);
+        if (sigismember(&pending_set, SIGPIPE) == 1) {
+            int sig;
+            sigwait(&pipe_set, &sig);
+        }
+    }
+
+    pthread_sigmask(SIG_SETMASK, &old_set, NULL);
+    errno = err;
+    return nwritten;
+}
+
 int MBPipe::Signal()
 {
     if (fd < 0) {
@@ -163,7 +189,8 @@ int MBPipe::Signal()
         return MBError::NO_RESOURCE;
     }
 
-    if (write(fd, "", 1) < 0) {
+    // The process must not be terminated if the async writer has just closed the pipe.
+    if (WriteNoSigPipe(fd) < 0) {
         if (!(errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to signal async writer errno: %s",
                 strerror(errno));
-- 
2.43.0


From 5ca4688570625fe7472bd1425920c4e35f966ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:49 +0000
Subject: [PATCH 33/84] fix: resource collection without space for its tree
 leaves the db usable

---
 src/mb_rc.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 1c00d59..db7e8b7 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -703,7 +703,23 @@ void ResourceCollection::Prepare(int64_t min_index_size, int64_t min_data_size)
         header->m_data_offset = rc_data_offset;
 
         // create rc root node
-        size_t rc_off = dmm->InitRootNode_RC();
+        size_t rc_off;
+        try {
+            rc_off = dmm->InitRootNode_RC();
+            // The data buffers of the rc tree need space too.
+            size_t data_off = rc_data_offset;
+            uint8_t* data_ptr;
+            int rval = dict->Reserve(data_off, 1, data_ptr);
+            if (rval != MBError::SUCCESS)
+                throw rval;
+        } catch (int err) {
+            // There is no space for the rc tree. The offsets must not stay there.
+            header->m_index_offset = header->rc_m_index_off_pre;
+            header->m_data_offset = header->rc_m_data_off_pre;
+            header->rc_m_index_off_pre = 0;
+            header->rc_m_data_off_pre = 0;
+            throw;
+        }
         header->rc_root_offset.store(rc_off, MEMORY_ORDER_WRITER);
     }
 
-- 
2.43.0


From 689837e39c42c3631972ca60503e53a8d1688103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 34/84] fix: iterating a db which is not open finds nothing
 instead of crashing

---
 src/iterator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iterator.cpp b/src/iterator.cpp
index 47a1b3e..464272e 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -111,7 +111,8 @@ void DB::iterator::iter_obj_init()
     kv_per_node = NULL;
     lfree = NULL;
 
-    if (!(db_ref.GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) {
+    // There is no dict if the db is not open.
+    if (db_ref.dict != NULL && !(db_ref.GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) {
 #ifdef __LOCK_FREE__
         lfree = db_ref.dict->GetLockFreePtr();
 #endif
@@ -146,6 +147,10 @@ DB::iterator::~iterator()
 // Initialize the iterator, get the very first key-value pair.
 void DB::iterator::init(bool check_async_mode)
 {
+    if (!db_ref.is_open()) {
+        state = DB_ITER_STATE_DONE;
+        return;
+    }
     // Writer in async mode cannot be used for lookup
     if (check_async_mode && (db_ref.options & CONSTS::ASYNC_WRITER_MODE)) {
         state = DB_ITER_STATE_DONE;
-- 
2.43.0


From 87efb6f0bc839d2b62f22e5f817572310f312faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:21 +0000
Subject: [PATCH 35/84] fix: the copy of a memory-only db handle is usable

---
 src/db.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 0c930b5..eae9f6d 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -837,7 +837,8 @@ DB::DB(const DB& db)
 {
     MBConfig db_config = db.dbConfig;
     db_config.mbdir = db.mb_dir.c_str();
-    db_config.options = CONSTS::ACCESS_MODE_READER;
+    // A memory-only db has no files to be opened.
+    db_config.options = CONSTS::ACCESS_MODE_READER | (db.dbConfig.options & CONSTS::MEMORY_ONLY_MODE);
     InitDB(db_config);
 }
 
-- 
2.43.0


From 1397ddd9c288f9960eb06860f310ff3fe97b9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 36/84] fix: the async writer thread starts after the db is
 open

---
 src/db.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index eae9f6d..ce0ec25 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -501,11 +501,6 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
     lock.Init(dict->GetShmLockPtr());
     UpdateNumHandlers(config.options, 1);
 
-    if (config.options & CONSTS::ACCESS_MODE_WRITER) {
-        if (config.options & CONSTS::ASYNC_WRITER_MODE)
-            async_writer = AsyncWriter::CreateInstance(this);
-    }
-
     if (!(init_header || update_header)) {
         IndexHeader* header = dict->GetHeaderPtr();
         if (header != NULL && header->async_queue_size != (int)config.queue_size) {
@@ -558,6 +553,10 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
                 }
             }
         }
+
+        // The thread checks the status and must not run before the db is ready.
+        if (is_open() && (config.options & CONSTS::ASYNC_WRITER_MODE))
+            async_writer = AsyncWriter::CreateInstance(this);
     }
 }
 
-- 
2.43.0


From cf0e70eeefb3b81f57e6ac25897fd6fc1f9167bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 37/84] fix: all updates made during resource collection are
 merged

---
 src/mb_rc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index db7e8b7..4a157bd 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1038,8 +1038,11 @@ void ResourceCollection::ProcessRCTree()
     int rval;
     DB db_itr(db_ref);
     for (DB::iterator iter = db_itr.begin(false, true); iter != db_itr.end(); ++iter) {
-        iter.value.options = 0;
-        rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
+        // The iterator needs the options of its value to stay in the rc tree.
+        MBData entry;
+        entry.buff = iter.value.buff;
+        entry.data_len = iter.value.data_len;
+        rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), entry, true);
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
 
-- 
2.43.0


From e96e9c3c2e91e833344eb58f049a90faee1243ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 38/84] fix: a db without entries can be backed up

---
 src/mb_backup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index 30800d1..d612326 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -16,6 +16,7 @@
 
 // @author Shridhar Bhalerao <shbhaler@cisco.com>
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 #include <limits.h>
@@ -129,6 +130,9 @@ int DBBackup::Backup(const char* bk_dir)
     } else {
         // The next block file may not exist if the offset is at the end of a block.
         num_data_files = 1 + (header->m_data_offset > 0 ? (header->m_data_offset - 1) / header->data_block_size : 0);
+        // There is no data file before the first entry is added.
+        if (num_data_files == 1)
+            num_data_files = std::min(1, count_files(db_ref.GetDBDir() + "/_mabain_d"));
         num_index_files = 1 + (header->m_index_offset > 0 ? (header->m_index_offset - 1) / header->index_block_size : 0);
     }
 
-- 
2.43.0


From a8664027b7c074f7f27692f54d2f3f5a94cce9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 39/84] fix: a jemalloc db can grow past the end of a block

---
 src/rollable_file.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index b54766d..31170b4 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -809,8 +809,8 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                 // Try next tail block
                 block_order++;
                 if ((size_t)block_order >= mgr->max_num_block) {
-                    Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u max block number exceeded",
-                        " new memory (aligned offset: %zu, used: %zu, size: %zu)",
+                    Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u max block number exceeded"
+                                                 " (aligned offset: %zu, used: %zu, size: %zu)",
                         arena_ind, aligned_offset, mm_meta->alloc_size, size);
                     g_jemalloc_alloc_error = MBError::NO_MEMORY;
                     return nullptr;
@@ -826,7 +826,7 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                 aligned_offset = 0; // reset aligned offset for new block
                 if (aligned_offset + size > mgr->block_size) {
                     Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u failed to extend"
-                                                 " new memory (offset: %zu, size: %zu, used: %zu, size: %zu)",
+                                                 " new memory (offset: %zu, size: %zu, block size: %zu)",
                         arena_ind, aligned_offset, size, mgr->block_size);
                     g_jemalloc_alloc_error = MBError::NO_MEMORY;
                     return nullptr;
@@ -835,6 +835,16 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                 ptr = mgr->files[block_order]->GetMapAddr() + aligned_offset;
             }
         } else {
+            // The tail may be at the end of a block, and the next one is not open yet.
+            int rval = mgr->CheckAndOpenFile(block_order, true);
+            if (rval != MBError::SUCCESS) {
+                Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u failed to open"
+                                             " block file (order: %d, used: %zu, size: %zu)",
+                    arena_ind, block_order, mm_meta->alloc_size, size);
+                g_jemalloc_alloc_error = rval == MBError::NO_RESOURCE ? MBError::NO_MEMORY
+                                                                      : MBError::MMAP_FAILED;
+                return nullptr;
+            }
             mm_meta->alloc_size = block_order * mgr->block_size + aligned_offset + size;
             ptr = mgr->files[block_order]->GetMapAddr() + aligned_offset;
         }
-- 
2.43.0


From 411dc8789862a009de2e9c2d98dc3c5018bc0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 40/84] fix: blocks which were given for reuse are not
 allocated a second time

---
 src/mb_mm.h           | 3 +++
 src/rollable_file.cpp | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mb_mm.h b/src/mb_mm.h
index 83c3b99..5d62273 100644
--- a/src/mb_mm.h
+++ b/src/mb_mm.h
@@ -34,6 +34,7 @@ public:
         , arena_index(0)
         , active_reusable_block_order(-1)
         , active_reusable_block_offset(0)
+        , min_next_block_order(0)
     {
         extent_hooks = new extent_hooks_t();
     }
@@ -51,6 +52,8 @@ public:
     std::vector<uint32_t> reusable_block_order;
     int active_reusable_block_order;
     size_t active_reusable_block_offset;
+    // New tail blocks must be beyond the blocks which were given for reuse.
+    size_t min_next_block_order;
 };
 
 }
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 31170b4..ee7cee9 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -590,6 +590,8 @@ int RollableFile::AddReusableBlock(size_t block_order)
             return MBError::SUCCESS;
     }
     mm_meta->reusable_block_order.push_back(static_cast<uint32_t>(block_order));
+    if (mm_meta->min_next_block_order <= block_order)
+        mm_meta->min_next_block_order = block_order + 1;
     return MBError::SUCCESS;
 }
 
@@ -782,7 +784,8 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
         int block_order = mm_meta->alloc_size / mgr->block_size;
         size_t relative_offset = mm_meta->alloc_size % mgr->block_size;
         aligned_offset = (relative_offset + alignment - 1) & ~(alignment - 1);
-        if (aligned_offset + size > mgr->block_size) {
+        if (aligned_offset + size > mgr->block_size
+            || (relative_offset == 0 && (size_t)block_order < mm_meta->min_next_block_order)) {
             if (!mm_meta->reusable_block_order.empty()) {
                 block_order = static_cast<int>(mm_meta->reusable_block_order.back());
                 int rval = mgr->CheckAndOpenFile(block_order, true);
@@ -806,8 +809,10 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                 mm_meta->active_reusable_block_offset = size;
                 ptr = mgr->files[block_order]->GetMapAddr();
             } else {
-                // Try next tail block
+                // Try next tail block. The reusable blocks are all in use.
                 block_order++;
+                if ((size_t)block_order < mm_meta->min_next_block_order)
+                    block_order = static_cast<int>(mm_meta->min_next_block_order);
                 if ((size_t)block_order >= mgr->max_num_block) {
                     Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u max block number exceeded"
                                                  " (aligned offset: %zu, used: %zu, size: %zu)",
-- 
2.43.0


From 26df164301c4493d045647c2f51ae8153cf0e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 41/84] fix: startup rebuild reuses the space beyond the live
 buffers instead of new blocks

---
 src/mb_rc.cpp | 35 ++++++++++++++++++++++-------------
 src/mb_rc.h   |  5 +++++
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 4a157bd..ccd21fd 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -83,6 +83,8 @@ ResourceCollection::ResourceCollection(const DB& db, int rct)
     : DBTraverseBase(db)
     , rc_type(rct)
 {
+    index_live_end = 0;
+    data_live_end = 0;
     evacuate_index_block_start = 0;
     evacuate_index_block_end = 0;
     evacuate_data_block_start = 0;
@@ -237,26 +239,23 @@ int ResourceCollection::StartupShrink()
 
     const size_t index_block_end = dmm->GetExistingBlockEnd();
     const size_t data_block_end = dict->GetExistingBlockEnd();
-    size_t index_tail = std::max(dmm->GetJemallocAllocSize(), index_block_end);
-    size_t data_tail = std::max(dict->GetJemallocAllocSize(), data_block_end);
-    if (index_tail == 0 || data_tail == 0)
+    if (index_block_end == 0 || data_block_end == 0)
         return MBError::NOT_INITIALIZED;
-    if (index_tail < header->m_index_offset || data_tail < header->m_data_offset) {
-        Logger::Log(LOG_LEVEL_WARN,
-            "startup shrink live offsets exceed reopen tails index=%llu/%llu data=%llu/%llu",
-            static_cast<unsigned long long>(header->m_index_offset),
-            static_cast<unsigned long long>(index_tail),
-            static_cast<unsigned long long>(header->m_data_offset),
-            static_cast<unsigned long long>(data_tail));
-        return MBError::INVALID_SIZE;
-    }
+
+    // There are no live buffers beyond these offsets.
+    index_live_end = header->m_index_offset;
+    data_live_end = header->m_data_offset;
+    TraverseDB(RESOURCE_COLLECTION_PHASE_LIVE_END);
+    const size_t index_tail = index_live_end;
+    const size_t data_tail = data_live_end;
 
     startup_rebuild_.Reset(REBUILD_STATE_COPY);
     startup_rebuild_.rebuild_index_alloc_end = index_tail;
     startup_rebuild_.rebuild_data_alloc_end = data_tail;
 
     // In jemalloc mode, normal live offsets are not reliable reopen tails.
-    // Reorder must use a non-overlapping workspace beyond the existing block end.
+    // Reorder must use a non-overlapping workspace beyond the last live buffer.
+    // The blocks there must be reused: a db does not need more at each restart.
     header->m_index_offset = index_tail;
     header->m_data_offset = data_tail;
     header->rc_m_index_off_pre = index_tail;
@@ -857,6 +856,16 @@ bool ResourceCollection::MoveDataBuffer(int phase, size_t& offset_src, int size)
 
 void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
 {
+    if (phase == RESOURCE_COLLECTION_PHASE_LIVE_END) {
+        if (dbt_node.buffer_type & BUFFER_TYPE_NODE)
+            index_live_end = std::max(index_live_end, dbt_node.node_offset + dbt_node.node_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_EDGE_STR)
+            index_live_end = std::max(index_live_end, dbt_node.edgestr_offset + dbt_node.edgestr_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_DATA)
+            data_live_end = std::max(data_live_end, dbt_node.data_offset + dbt_node.data_size);
+        return;
+    }
+
     if (phase == RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX) {
         header->excep_lf_offset = dbt_node.edge_offset;
         if (dbt_node.buffer_type & BUFFER_TYPE_NODE) {
diff --git a/src/mb_rc.h b/src/mb_rc.h
index a8667b3..bd945f3 100644
--- a/src/mb_rc.h
+++ b/src/mb_rc.h
@@ -31,6 +31,7 @@
 #define RESOURCE_COLLECTION_PHASE_COLLECT 0x02
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX 0x04
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_DATA 0x08
+#define RESOURCE_COLLECTION_PHASE_LIVE_END 0x10
 
 namespace mabain {
 
@@ -144,6 +145,10 @@ private:
     size_t edge_str_size;
     int64_t node_cnt;
 
+    // End of the last live buffers, used by startup shrink.
+    size_t index_live_end;
+    size_t data_live_end;
+
     // Current full source block being evacuated in Step 6.
     size_t evacuate_index_block_start;
     size_t evacuate_index_block_end;
-- 
2.43.0


From b0b1e1502f0311a5ef383900f03a5a8414300bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 42/84] fix: startup rebuild without space for compaction keeps
 the db

---
 src/mb_rc.cpp         | 16 +++++++++++++---
 src/rollable_file.cpp |  5 +++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index ccd21fd..5d1f539 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -274,9 +274,19 @@ int ResourceCollection::StartupShrink()
     index_reorder_status = MBError::NOT_INITIALIZED;
     data_reorder_status = MBError::NOT_INITIALIZED;
     header->rc_root_offset.store(0, MEMORY_ORDER_WRITER);
-    ReorderBuffers();
-    CollectBuffers();
-    Finish();
+    try {
+        ReorderBuffers();
+        CollectBuffers();
+        Finish();
+    } catch (int err) {
+        if (err != MBError::NO_RESOURCE)
+            throw;
+        // There is no space for compaction. Keep the db as it is. The free space
+        // starts behind the last buffer which was moved.
+        Logger::Log(LOG_LEVEL_WARN, "no space for compaction, the db is kept without it");
+        header->rc_m_index_off_pre = 0;
+        header->rc_m_data_off_pre = 0;
+    }
 
     startup_rebuild_.rebuild_index_source_end = std::max(index_block_end, header->m_index_offset);
     startup_rebuild_.rebuild_data_source_end = std::max(data_block_end, header->m_data_offset);
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index ee7cee9..9f04fe4 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -557,6 +557,11 @@ int RollableFile::ReseedJemalloc(size_t alloc_size)
     }
 
     size_t block_order = alloc_size / block_size;
+    if (alloc_size == max_num_block * block_size) {
+        // All the blocks are in use.
+        files[0]->mm_meta->alloc_size = alloc_size;
+        return MBError::SUCCESS;
+    }
     rval = CheckAndOpenFile(block_order, true);
     if (rval != MBError::SUCCESS) {
         return rval;
-- 
2.43.0


From 63473e02cf0966dd61a7c7517129a5f4e118aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 43/84] fix: a failed reservation of space leaves the
 allocation offset as it was

---
 src/rollable_file.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 9f04fe4..78d09ae 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -245,12 +245,14 @@ int RollableFile::Reserve(size_t& offset, int size, uint8_t*& ptr, bool map_new_
 {
     int rval;
     ptr = NULL;
-    offset = CheckAlignment(offset, size);
+    size_t aligned_offset = CheckAlignment(offset, size);
 
-    size_t order = offset / block_size;
+    size_t order = aligned_offset / block_size;
     rval = CheckAndOpenFile(order, true);
     if (rval != MBError::SUCCESS)
         return rval;
+    // The caller keeps its offset if there is no space.
+    offset = aligned_offset;
 
     if (files[order]->IsMapped()) {
         size_t index = offset % block_size;
-- 
2.43.0


From 62393a38d3c0b5c0d808b7789652e3fd50f7dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 44/84] fix: Add and Remove on a full db return an error
 instead of throwing

---
 src/db.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ce0ec25..4f6ab0a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1006,7 +1006,12 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        try {
+            rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        } catch (int error) {
+            Logger::Log(LOG_LEVEL_WARN, "Add failed: %s", MBError::get_error_str(error));
+            rval = error;
+        }
     } else {
         AsyncWriter* awr = async_writer;
         if (awr == NULL) {
@@ -1082,7 +1087,12 @@ int DB::Remove(const char* key, int len)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        try {
+            rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        } catch (int error) {
+            Logger::Log(LOG_LEVEL_WARN, "Remove failed: %s", MBError::get_error_str(error));
+            rval = error;
+        }
     } else {
         rval = dict->SHMQ_Remove(reinterpret_cast<const char*>(key), len);
     }
-- 
2.43.0


From 275d5ee3f796f0aee3f0b2ca89e47683ad44aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 45/84] fix: removing an edge without space for the new node
 leaves no exception state

---
 src/dict_mem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 3bd8f97..1836e73 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1471,8 +1471,14 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     header->excep_lf_offset = edge_ptrs.parent_offset;
     header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
     if (nt > 1) {
-        rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
-            str_off_rel, str_size_rel, header->excep_lf_offset);
+        try {
+            rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
+                str_off_rel, str_size_rel, header->excep_lf_offset);
+        } catch (int err) {
+            // There is no space for the new node. The old one is not changed.
+            header->excep_updating_status = EXCEP_STATUS_NONE;
+            throw;
+        }
     } else {
         rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, header->excep_lf_offset,
             header->excep_offset, nt, str_off_rel, str_size_rel);
-- 
2.43.0


From 143019e3a7aa7ddb08d72af3a753d494bd6903ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 46/84] fix: resource collection which runs out of space keeps
 the db

---
 src/mb_rc.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 src/mb_rc.h   |  1 +
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 5d1f539..ec034af 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -202,9 +202,14 @@ void ResourceCollection::ReclaimResource(int64_t min_index_size,
             rc_type & RESOURCE_COLLECTION_TYPE_DATA ? " yes" : "no");
         gettimeofday(&start, NULL);
 
-        ReorderBuffers();
-        CollectBuffers();
-        Finish();
+        try {
+            ReorderBuffers();
+            CollectBuffers();
+            Finish();
+        } catch (int err) {
+            Abort();
+            throw;
+        }
 
         gettimeofday(&stop, NULL);
         async_writer_ptr = NULL;
@@ -791,6 +796,25 @@ void ResourceCollection::Finish()
     // dmm->RemoveUnused(header->m_index_offset, true);
 }
 
+void ResourceCollection::Abort()
+{
+    // The buffers which were moved are in use where they are now. The offsets behind
+    // them stay.
+    if (async_writer_ptr != NULL) {
+        if (index_free_lists != NULL)
+            index_free_lists->Empty();
+        if (data_free_lists != NULL)
+            data_free_lists->Empty();
+        // Keep what was updated during this run.
+        rc_index_offset = MAX_6B_OFFSET;
+        rc_data_offset = MAX_6B_OFFSET;
+        ProcessRCTree();
+    }
+
+    header->rc_m_index_off_pre = 0;
+    header->rc_m_data_off_pre = 0;
+}
+
 bool ResourceCollection::MoveIndexBuffer(int phase, size_t& offset_src, int size)
 {
     index_size = dmm->CheckAlignment(index_size, size);
@@ -1061,7 +1085,11 @@ void ResourceCollection::ProcessRCTree()
         MBData entry;
         entry.buff = iter.value.buff;
         entry.data_len = iter.value.data_len;
-        rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), entry, true);
+        try {
+            rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), entry, true);
+        } catch (int err) {
+            rval = err;
+        }
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
 
@@ -1099,7 +1127,9 @@ int ResourceCollection::ExceptionRecovery()
                 rval = err;
         }
 
-        if (rval != MBError::SUCCESS) {
+        if (rval == MBError::NO_RESOURCE) {
+            Logger::Log(LOG_LEVEL_WARN, "no space for rc recovery, the db is kept without it");
+        } else if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_ERROR, "failed to run rc recovery: %s, clear db!!!", MBError::get_error_str(rval));
             dict->RemoveAll();
         }
diff --git a/src/mb_rc.h b/src/mb_rc.h
index bd945f3..69ab496 100644
--- a/src/mb_rc.h
+++ b/src/mb_rc.h
@@ -108,6 +108,7 @@ private:
     void CollectBuffers();
     void ReorderBuffers();
     void Finish();
+    void Abort();
     bool MoveDataBufferEvacuate(size_t& offset_src, int size);
     bool MoveIndexBufferEvacuate(size_t& offset_src, int size);
     bool MoveIndexBuffer(int phase, size_t& offset_src, int size);
-- 
2.43.0


From ebb541d49a2fdce1596f6615afbead0ed7de4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 47/84] fix: a Remove which fails in a full db leaves the entry

---
 src/dict.cpp     | 31 +++++++++++++++++++++++++++++++
 src/dict.h       |  1 +
 src/dict_mem.cpp |  9 +++++++++
 src/dict_mem.h   |  1 +
 4 files changed, 42 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0e11171..3f342a2 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1059,6 +1059,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
     }
     if (rval == MBError::IN_DICT) {
         InvalidateCachedKey(key, len);
+        CheckRemoveSpace(key, len, data.edge_ptrs);
         rval = DeleteDataFromEdge(data, data.edge_ptrs);
         while (rval == MBError::TRY_AGAIN) {
             data.Clear();
@@ -1083,6 +1084,36 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
     return rval;
 }
 
+// If the nodes above the edge become empty, edges are removed up to a node which needs
+// a smaller copy. Make sure there is space for it before anything is removed.
+void Dict::CheckRemoveSpace(const uint8_t* key, int len, const EdgePtrs& edge_ptrs)
+{
+    if (!(edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) || edge_ptrs.curr_nt != 1)
+        return;
+
+    MBData parent;
+    size_t node_off = edge_ptrs.curr_node_offset;
+    int nt = edge_ptrs.curr_nt;
+    len -= edge_ptrs.len_ptr[0];
+    while (node_off != mm.GetRootOffset() && nt == 1) {
+        uint8_t node_flag;
+        if (mm.ReadData(&node_flag, 1, node_off) != 1 || (node_flag & FLAG_NODE_MATCH))
+            return;
+
+        parent.Clear();
+        parent.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
+        detail::SearchEngine engine(*this);
+        if (len <= 0 || engine.find(key, len, parent) != MBError::IN_DICT)
+            return;
+        node_off = parent.edge_ptrs.curr_node_offset;
+        nt = parent.edge_ptrs.curr_nt;
+        len -= parent.edge_ptrs.len_ptr[0];
+    }
+    if (node_off == mm.GetRootOffset())
+        return;
+    mm.CheckNodeSpace(nt - 2);
+}
+
 int Dict::RemoveAll()
 {
     int rval = MBError::SUCCESS;
diff --git a/src/dict.h b/src/dict.h
index 0007d58..1a36200 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -149,6 +149,7 @@ private:
     int CheckNodeMatch(const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
     int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
+    void CheckRemoveSpace(const uint8_t* key, int len, const EdgePtrs& edge_ptrs);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 1836e73..66b24e5 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1514,6 +1514,15 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
 }
 
 // All the empty nodes have only one edge.
+// Throw an error if there is no space for a node.
+void DictMem::CheckNodeSpace(int nt)
+{
+    size_t offset;
+    uint8_t* node;
+    (void)ReserveNode(nt, offset, node);
+    ReleaseNode(offset, nt);
+}
+
 void DictMem::ReleaseUnlinkedNodes()
 {
     for (size_t node_off : unlinked_nodes)
diff --git a/src/dict_mem.h b/src/dict_mem.h
index e95cc94..61107e8 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -86,6 +86,7 @@ public:
         uint8_t* node_buff, MBData& mbdata, EdgePtrs& less_edge_ptrs, int& le_edge_key) const;
     int NextMaxEdge(EdgePtrs& edge_ptrs, uint8_t* node_buff, MBData& mbdata, int& max_key) const;
     int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
+    void CheckNodeSpace(int nt);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     void WriteData(const uint8_t* buff, unsigned len, size_t offset) const;
-- 
2.43.0


From 8ab6168ea0428db1daf21123eb34f77b0b39437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 48/84] fix: a writer recovers the update during which the
 previous writer was killed

---
 src/db.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 4f6ab0a..49ceb74 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -539,6 +539,12 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
                 }
             }
         } else {
+            if (!init_header && !(config.options & CONSTS::MEMORY_ONLY_MODE)) {
+                // Finish or undo the update during which the previous writer was terminated.
+                int rval = dict->ExceptionRecovery();
+                if (rval != MBError::SUCCESS)
+                    Logger::Log(LOG_LEVEL_WARN, "exception recovery failed: %s", MBError::get_error_str(rval));
+            }
             if (!(config.options & CONSTS::ASYNC_WRITER_MODE)) {
                 // Run rc exception recovery
                 ResourceCollection rc(*this);
-- 
2.43.0


From b89fc049f6e79109ee9bc65d78315e32e4769d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 49/84] fix: recovery of an interrupted removal restores the
 flag of the parent edge

---
 src/dict.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 3f342a2..8c2cbd9 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1578,9 +1578,12 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        Write6BInteger(header->excep_buff, header->excep_offset);
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
-            header->excep_lf_offset + EDGE_NODE_LEADING_POS);
+        // Link the old node again. The flag is cleared as the edge may have been changed
+        // to a leaf.
+        header->excep_buff[0] = 0;
+        Write6BInteger(header->excep_buff + 1, header->excep_offset);
+        mm.WriteData(header->excep_buff, OFFSET_SIZE + 1,
+            header->excep_lf_offset + EDGE_FLAG_POS);
         break;
     case EXCEP_STATUS_CLEAR_EDGE:
 #ifdef __LOCK_FREE__
-- 
2.43.0


From fa451315bc72dd4de946498cfd9aa3bb526202d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 50/84] fix: a removal unlinks all the nodes which become empty
 with one store

---
 src/dict.cpp     | 84 ++++++++++++++++++++++++------------------------
 src/dict.h       |  4 +--
 src/dict_mem.cpp | 44 +++++++++++--------------
 src/dict_mem.h   | 14 +++++---
 4 files changed, 72 insertions(+), 74 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 8c2cbd9..00e90ff 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -19,6 +19,7 @@
 #include <errno.h>
 #include <iostream>
 #include <stdlib.h>
+#include <vector>
 
 #include "async_writer.h"
 #include "db.h"
@@ -763,8 +764,9 @@ int Dict::CheckNodeMatch(const EdgePtrs& edge_ptrs) const
 // Delete operations:
 //   If this is a leaf node, need to remove the edge. Otherwise, unset the match flag.
 //   Also need to set the delete flag in the data block so that it can be reclaimed later.
-int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
+int Dict::DeleteDataFromEdge(const uint8_t* key, int len, MBData& data)
 {
+    EdgePtrs& edge_ptrs = data.edge_ptrs;
     int rval = MBError::SUCCESS;
     size_t data_off;
     uint16_t data_len;
@@ -781,9 +783,9 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         } else {
             rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
         }
-        rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
+        rval = RemoveLeafEdge(key, len, data);
         // The data buffer can be reused only after the edge is removed.
-        if (rval == MBError::SUCCESS || rval == MBError::TRY_AGAIN)
+        if (rval == MBError::SUCCESS)
             ReleaseBuffer(data_off, rel_size);
     } else {
         // No exception handling in this case
@@ -1059,22 +1061,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
     }
     if (rval == MBError::IN_DICT) {
         InvalidateCachedKey(key, len);
-        CheckRemoveSpace(key, len, data.edge_ptrs);
-        rval = DeleteDataFromEdge(data, data.edge_ptrs);
-        while (rval == MBError::TRY_AGAIN) {
-            data.Clear();
-            len -= data.edge_ptrs.len_ptr[0];
-#ifdef __DEBUG__
-            assert(len > 0);
-#endif
-            {
-                detail::SearchEngine engine(*this);
-                rval = engine.find(key, len, data);
-            }
-            if (MBError::IN_DICT == rval) {
-                rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data);
-            }
-        }
+        rval = DeleteDataFromEdge(key, len, data);
     }
 
     if (rval == MBError::SUCCESS) {
@@ -1084,34 +1071,47 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
     return rval;
 }
 
-// If the nodes above the edge become empty, edges are removed up to a node which needs
-// a smaller copy. Make sure there is space for it before anything is removed.
-void Dict::CheckRemoveSpace(const uint8_t* key, int len, const EdgePtrs& edge_ptrs)
+// The nodes which become empty when the leaf edge in data is removed are unlinked together,
+// by removing one edge above them. So the tree never has an empty node.
+int Dict::RemoveLeafEdge(const uint8_t* key, int len, MBData& data)
 {
-    if (!(edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) || edge_ptrs.curr_nt != 1)
-        return;
-
-    MBData parent;
-    size_t node_off = edge_ptrs.curr_node_offset;
-    int nt = edge_ptrs.curr_nt;
-    len -= edge_ptrs.len_ptr[0];
-    while (node_off != mm.GetRootOffset() && nt == 1) {
+    std::vector<UnlinkedEdge> unlinked;
+    EdgePtrs& edge_ptrs = data.edge_ptrs;
+    while (edge_ptrs.curr_node_offset != mm.GetRootOffset() && edge_ptrs.curr_nt == 1) {
         uint8_t node_flag;
-        if (mm.ReadData(&node_flag, 1, node_off) != 1 || (node_flag & FLAG_NODE_MATCH))
-            return;
+        if (mm.ReadData(&node_flag, 1, edge_ptrs.curr_node_offset) != 1)
+            return MBError::READ_ERROR;
+        if (node_flag & FLAG_NODE_MATCH)
+            break;
 
-        parent.Clear();
-        parent.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
+        // This is the only edge of the node. Remove the edge to the node instead.
+        UnlinkedEdge edge;
+        edge.edge_offset = edge_ptrs.offset;
+        edge.node_offset = edge_ptrs.curr_node_offset;
+        edge.str_offset = 0;
+        edge.str_size = 0;
+        if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN) {
+            edge.str_offset = Get5BInteger(edge_ptrs.ptr);
+            edge.str_size = edge_ptrs.len_ptr[0] - 1;
+        }
+        unlinked.push_back(edge);
+
+        len -= edge_ptrs.len_ptr[0];
+        if (len <= 0)
+            return MBError::INVALID_ARG;
+        data.Clear();
         detail::SearchEngine engine(*this);
-        if (len <= 0 || engine.find(key, len, parent) != MBError::IN_DICT)
-            return;
-        node_off = parent.edge_ptrs.curr_node_offset;
-        nt = parent.edge_ptrs.curr_nt;
-        len -= parent.edge_ptrs.len_ptr[0];
+        int rval = engine.find(key, len, data);
+        if (rval != MBError::IN_DICT)
+            return rval;
     }
-    if (node_off == mm.GetRootOffset())
-        return;
-    mm.CheckNodeSpace(nt - 2);
+
+    int rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
+    if (rval != MBError::SUCCESS)
+        return rval;
+    for (const UnlinkedEdge& edge : unlinked)
+        mm.ReleaseUnlinkedEdge(edge);
+    return rval;
 }
 
 int Dict::RemoveAll()
diff --git a/src/dict.h b/src/dict.h
index 1a36200..66036cd 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -148,8 +148,8 @@ private:
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int CheckNodeMatch(const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
-    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
-    void CheckRemoveSpace(const uint8_t* key, int len, const EdgePtrs& edge_ptrs);
+    int DeleteDataFromEdge(const uint8_t* key, int len, MBData& data);
+    int RemoveLeafEdge(const uint8_t* key, int len, MBData& data);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 66b24e5..6389d4f 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1428,8 +1428,8 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
         lfree->WriterLockFreeStop();
 #endif
     } else {
-        // This is an internal node.
-        rval = MBError::TRY_AGAIN;
+        // The node would become empty. The caller removes an edge above it.
+        return MBError::INVALID_ARG;
     }
 
     uint8_t old_edge_buff[16];
@@ -1450,7 +1450,6 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
 
     if (header->excep_offset == root_offset) {
         RemoveRootEdge(edge_ptrs);
-        ReleaseUnlinkedNodes();
         return MBError::SUCCESS;
     }
 
@@ -1484,6 +1483,8 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
             header->excep_offset, nt, str_off_rel, str_size_rel);
     }
     header->excep_updating_status = EXCEP_STATUS_NONE;
+    if (rval != MBError::SUCCESS)
+        return rval;
 
     header->n_edges--;
 
@@ -1499,35 +1500,28 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
 
-    // If the node has become empty, its parent still links to it. It can be
-    // reused only after the caller has removed the edge from the parent.
-    if (rval == MBError::TRY_AGAIN)
-        unlinked_nodes.push_back(header->excep_offset);
-    else
-        ReleaseNode(header->excep_offset, nt - 1);
+    ReleaseNode(header->excep_offset, nt - 1);
     if (str_size_rel > 0)
         ReleaseBuffer(str_off_rel, str_size_rel);
-    if (rval != MBError::TRY_AGAIN)
-        ReleaseUnlinkedNodes();
 
     return rval;
 }
 
-// All the empty nodes have only one edge.
-// Throw an error if there is no space for a node.
-void DictMem::CheckNodeSpace(int nt)
-{
-    size_t offset;
-    uint8_t* node;
-    (void)ReserveNode(nt, offset, node);
-    ReleaseNode(offset, nt);
-}
-
-void DictMem::ReleaseUnlinkedNodes()
+void DictMem::ReleaseUnlinkedEdge(const UnlinkedEdge& edge)
 {
-    for (size_t node_off : unlinked_nodes)
-        ReleaseNode(node_off, 0);
-    unlinked_nodes.clear();
+    // Readers which are still there must not use the edge.
+#ifdef __LOCK_FREE__
+    header->excep_lf_offset = edge.edge_offset;
+    lfree->WriterLockFreeStart(edge.edge_offset);
+#endif
+    WriteData(DictMem::empty_edge, EDGE_SIZE, edge.edge_offset);
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStop();
+#endif
+    header->n_edges--;
+    ReleaseNode(edge.node_offset, 0);
+    if (edge.str_size > 0)
+        ReleaseBuffer(edge.str_offset, edge.str_size);
 }
 
 // Should only be called by writer
diff --git a/src/dict_mem.h b/src/dict_mem.h
index 61107e8..e9749a3 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -25,7 +25,6 @@
 #include <stdint.h>
 #include <string.h>
 #include <string>
-#include <vector>
 
 #include "db.h"
 #include "drm_base.h"
@@ -47,6 +46,14 @@ typedef struct _NodePtrs {
     uint8_t* edge_ptr;
 } NodePtrs;
 
+// The only edge of a node which is not linked any more
+struct UnlinkedEdge {
+    size_t edge_offset;
+    size_t node_offset;
+    size_t str_offset;
+    int str_size;
+};
+
 // Memory management class for the dictionary
 class DictMem : public DRMBase {
 public:
@@ -86,7 +93,7 @@ public:
         uint8_t* node_buff, MBData& mbdata, EdgePtrs& less_edge_ptrs, int& le_edge_key) const;
     int NextMaxEdge(EdgePtrs& edge_ptrs, uint8_t* node_buff, MBData& mbdata, int& max_key) const;
     int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
-    void CheckNodeSpace(int nt);
+    void ReleaseUnlinkedEdge(const UnlinkedEdge& edge);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     void WriteData(const uint8_t* buff, unsigned len, size_t offset) const;
@@ -119,7 +126,6 @@ private:
         MBData& data, int& release_buffer_size,
         size_t& edge_str_off, bool& map_new_sliding);
     void RemoveRootEdge(const EdgePtrs& edge_ptrs);
-    void ReleaseUnlinkedNodes();
     int RemoveEdgeSizeN(const EdgePtrs& edge_ptrs, int nt, size_t node_offset,
         uint8_t* old_node_buffer, size_t& str_off_rel,
         int& str_size_rel, size_t parent_edge_offset);
@@ -146,8 +152,6 @@ private:
     std::shared_ptr<MmapFileIO> header_file;
 
     size_t root_offset_rc;
-    // empty nodes which are still linked by their parents
-    std::vector<size_t> unlinked_nodes;
 };
 
 inline void DictMem::WriteEdge(const EdgePtrs& edge_ptrs) const
-- 
2.43.0


From 31de04d45f2f589a7f28328137942bfbc5977bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 51/84] fix: a RemoveAll during which the writer was killed is
 run again

---
 src/dict.cpp     | 5 +++++
 src/dict_mem.cpp | 4 +---
 src/drm_base.h   | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 00e90ff..927e460 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1119,6 +1119,8 @@ int Dict::RemoveAll()
     int rval = MBError::SUCCESS;
 
     ClearPrefixCache();
+    // It has to be run again if the writer is terminated before it is done.
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_ALL;
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
@@ -1142,6 +1144,7 @@ int Dict::RemoveAll()
     header->count = 0;
     header->eviction_bucket_index = 0;
     header->num_update = 0;
+    header->excep_updating_status = EXCEP_STATUS_NONE;
     return rval;
 }
 
@@ -1605,6 +1608,8 @@ int Dict::ExceptionRecovery()
 #endif
         mm.WriteData(header->excep_buff, OFFSET_SIZE - 1, header->excep_offset);
         break;
+    case EXCEP_STATUS_REMOVE_ALL:
+        return RemoveAll();
     default:
         Logger::Log(LOG_LEVEL_ERROR, "unknown exception status: %d",
             header->excep_updating_status);
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 6389d4f..2870701 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1091,6 +1091,7 @@ size_t DictMem::InitRootNode_RC()
     return root_offset_rc;
 }
 
+// The caller sets the exception status.
 // No need to call LokcFree for removing all DB entries.
 // Note readers may get READ_ERROR as return, which should be expected
 // considering the full DB is deleted.
@@ -1098,14 +1099,11 @@ int DictMem::ClearRootEdge(int nt) const
 {
     size_t offset = root_offset + NODE_EDGE_KEY_FIRST + NUM_ALPHABET + nt * EDGE_SIZE;
 #ifdef __LOCK_FREE__
-    header->excep_lf_offset = offset;
-    header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
     lfree->WriterLockFreeStart(offset);
 #endif
     WriteData(DictMem::empty_edge, EDGE_SIZE, offset);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
 
     return MBError::SUCCESS;
diff --git a/src/drm_base.h b/src/drm_base.h
index a87f20c..a4150ca 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -52,6 +52,7 @@
 #define EXCEP_STATUS_RC_DATA 8
 #define EXCEP_STATUS_RC_TREE 9
 #define EXCEP_STATUS_REBUILD_ROOT_EDGE 10
+#define EXCEP_STATUS_REMOVE_ALL 11
 #define MB_EXCEPTION_BUFF_SIZE 16
 
 #define REBUILD_STATE_NORMAL 0
-- 
2.43.0


From bd5051b12850919f4c6cce18654a014b68167911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 52/84] fix: a db which is erased and created again does not
 use the removed files

---
 src/db.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 49ceb74..57465ea 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -747,6 +747,8 @@ void DB::ReInit(MBConfig& config)
     Close();
     std::string db_dir = std::string(config.mbdir);
     remove_db_files(db_dir, config.queue_dir);
+    // The removed files must not be used for the new DB.
+    ResourcePool::getInstance().RemoveResourceByDB(mb_dir);
     status = MBError::NOT_INITIALIZED;
     InitDBEx(config);
 }
-- 
2.43.0


From c6a2fb50ddc94522f9c24cb5a05c7b7cc7a3635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 53/84] fix: a db whose creation was interrupted is not opened
 as if it was complete

---
 src/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 57465ea..ca0d686 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -473,12 +473,14 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
         }
         IndexHeader* header = dict->GetHeaderPtr();
         if (header != NULL) {
-            header->async_queue_size = config.queue_size;
             header->ResetReaderEpochState();
             header->jemalloc_index_free_start = 0;
             header->jemalloc_data_free_start = 0;
         }
         dict->Init(identifier);
+        // The DB can be opened once the queue size is set.
+        if (header != NULL && dict->Status() == MBError::SUCCESS)
+            header->async_queue_size = config.queue_size;
     }
 
     if (dict->Status() != MBError::SUCCESS) {
-- 
2.43.0


From 47c6b57ffaeae909d51b4f896569f2a089c5f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 54/84] fix: only the handle which has the writer lock releases
 it

A writer which failed to open because there is another writer, or a
writer handle which was closed twice, removed the lock of the writer of
the same process, so that a second writer could be opened. A failed
attempt also kept the mark in the process after the other process
released its lock.
---
 src/db.cpp | 22 ++++++++++++++++------
 src/db.h   |  2 ++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ca0d686..9f5b35b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -155,15 +155,22 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
-    if (options & CONSTS::ACCESS_MODE_WRITER) {
-        release_file_lock(writer_lock_fd);
-        std::string lock_file = mb_dir + "_lock";
-        ResourcePool::getInstance().RemoveResourceByPath(lock_file);
-    }
+    ReleaseWriterLock();
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
     return rval;
 }
 
+// Only the handle which acquired the writer lock may release it.
+void DB::ReleaseWriterLock()
+{
+    if (!writer_lock_held)
+        return;
+
+    release_file_lock(writer_lock_fd);
+    ResourcePool::getInstance().RemoveResourceByPath(mb_dir + "_lock");
+    writer_lock_held = false;
+}
+
 int DB::UpdateNumHandlers(int mode, int delta)
 {
     int rval = MBError::SUCCESS;
@@ -403,11 +410,14 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
         // internal check first
         int ret = ResourcePool::getInstance().AddResourceByPath(lock_file, NULL);
         if (ret == MBError::SUCCESS) {
+            writer_lock_held = true;
             if (!(config.options & CONSTS::MEMORY_ONLY_MODE)) {
                 // process check by file lock
                 writer_lock_fd = acquire_file_lock_wait_n(lock_file, 1);
-                if (writer_lock_fd < 0)
+                if (writer_lock_fd < 0) {
                     status = MBError::WRITER_EXIST;
+                    ReleaseWriterLock();
+                }
             }
         } else {
             status = MBError::WRITER_EXIST;
diff --git a/src/db.h b/src/db.h
index b8c47fc..0f37f51 100644
--- a/src/db.h
+++ b/src/db.h
@@ -247,6 +247,7 @@ private:
     bool StartupRebuildComplete() const;
     int RunStartupRebuild();
     static int ValidateConfig(MBConfig& config);
+    void ReleaseWriterLock();
 
     // DB directory
     std::string mb_dir;
@@ -270,6 +271,7 @@ private:
     AsyncWriter* async_writer;
 
     int writer_lock_fd;
+    bool writer_lock_held = false;
 };
 
 }
-- 
2.43.0


From 02242eb68320aab5641826611fa1ca3cf6360ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 55/84] fix: a copy of a handle uses the queue directory after
 the caller's string is gone

---
 src/db.cpp | 5 +++++
 src/db.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 9f5b35b..a2fb395 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -795,6 +795,11 @@ void DB::InitDBEx(MBConfig& config)
     // save the configuration
     memcpy(&dbConfig, &config, sizeof(MBConfig));
     dbConfig.mbdir = NULL;
+    if (config.queue_dir != NULL) {
+        // The string of the caller may be gone when this handle is copied.
+        queue_dir = std::string(config.queue_dir);
+        dbConfig.queue_dir = queue_dir.c_str();
+    }
 
     // If id not given, use thread ID
     if (config.connect_id == 0) {
diff --git a/src/db.h b/src/db.h
index 0f37f51..5280a77 100644
--- a/src/db.h
+++ b/src/db.h
@@ -267,6 +267,7 @@ private:
     // db lock
     MBLock lock;
     MBConfig dbConfig;
+    std::string queue_dir;
 
     AsyncWriter* async_writer;
 
-- 
2.43.0


From 85f5436847b645725e87f40a6f298d64d669d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 56/84] fix: opening a db with an invalid configuration does
 not erase the db

The members of the handle were also not initialized, so that closing it
was undefined.
---
 src/db.cpp |  8 ++++++--
 src/db.h   | 10 +++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index a2fb395..d61f8f6 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -345,7 +345,7 @@ DB::DB(MBConfig& config)
 
 int DB::ValidateConfig(MBConfig& config)
 {
-    if (config.mbdir == NULL)
+    if (config.mbdir == NULL || config.mbdir[0] == '\0')
         return MBError::INVALID_ARG;
 
     if (config.memcap_index == 0)
@@ -767,8 +767,12 @@ void DB::ReInit(MBConfig& config)
 
 void DB::InitDB(MBConfig& config)
 {
-    if (config.mbdir == nullptr)
+    // An invalid configuration does not mean that the existing DB is corrupted.
+    status = ValidateConfig(config);
+    if (status != MBError::SUCCESS)
         return;
+    status = MBError::NOT_INITIALIZED;
+
     std::string db_dir = std::string(config.mbdir);
     std::string lock_file = "/tmp/_mbh_lock";
     if (directory_exists(db_dir)) {
diff --git a/src/db.h b/src/db.h
index 5280a77..0a61ab9 100644
--- a/src/db.h
+++ b/src/db.h
@@ -251,12 +251,12 @@ private:
 
     // DB directory
     std::string mb_dir;
-    int options;
-    Dict* dict;
+    int options = 0;
+    Dict* dict = NULL;
     int status;
 
     // DB connector ID
-    uint32_t identifier;
+    uint32_t identifier = 0;
     mutable std::shared_ptr<MmapFileIO> rebuild_guard_file;
     uint64_t process_start_time;
     mutable uint64_t reader_guard_fast_slot_count;
@@ -266,10 +266,10 @@ private:
 
     // db lock
     MBLock lock;
-    MBConfig dbConfig;
+    MBConfig dbConfig = {};
     std::string queue_dir;
 
-    AsyncWriter* async_writer;
+    AsyncWriter* async_writer = NULL;
 
     int writer_lock_fd;
     bool writer_lock_held = false;
-- 
2.43.0


From 14d0434cc66df60f134ccfec49859c897fe45ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 57/84] fix: opening a reader of a db which does not exist
 returns NO_DB

---
 src/db.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index d61f8f6..261a591 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -453,10 +453,12 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
         // not be successful.
         std::string header_file = mb_dir + "_mabain_h";
         if (access(header_file.c_str(), R_OK)) {
-            if (config.options & CONSTS::ACCESS_MODE_WRITER)
+            if (config.options & CONSTS::ACCESS_MODE_WRITER) {
                 init_header = true;
-            else
+            } else {
                 status = MBError::NO_DB;
+                return;
+            }
         }
     }
 
-- 
2.43.0


From 97527ab704f9e4241c9d56ad5a96e83ff6aadd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 58/84] fix: a second writer is refused when the directory is
 given by another path

The writers of one process were told apart by the path as it was given,
and the file lock does not exclude a second writer of the same process.
---
 src/db.cpp | 8 ++++++--
 src/db.h   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 261a591..08f9671 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -167,7 +167,7 @@ void DB::ReleaseWriterLock()
         return;
 
     release_file_lock(writer_lock_fd);
-    ResourcePool::getInstance().RemoveResourceByPath(mb_dir + "_lock");
+    ResourcePool::getInstance().RemoveResourceByPath(writer_lock_key);
     writer_lock_held = false;
 }
 
@@ -408,7 +408,11 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
     if (config.options & CONSTS::ACCESS_MODE_WRITER) {
         std::string lock_file = mb_dir + "_lock";
         // internal check first
-        int ret = ResourcePool::getInstance().AddResourceByPath(lock_file, NULL);
+        // The same directory can be given by different paths.
+        char* real_dir = realpath(mb_dir.c_str(), NULL);
+        writer_lock_key = real_dir != NULL ? std::string(real_dir) + "/_lock" : lock_file;
+        free(real_dir);
+        int ret = ResourcePool::getInstance().AddResourceByPath(writer_lock_key, NULL);
         if (ret == MBError::SUCCESS) {
             writer_lock_held = true;
             if (!(config.options & CONSTS::MEMORY_ONLY_MODE)) {
diff --git a/src/db.h b/src/db.h
index 0a61ab9..9e0be9c 100644
--- a/src/db.h
+++ b/src/db.h
@@ -273,6 +273,7 @@ private:
 
     int writer_lock_fd;
     bool writer_lock_held = false;
+    std::string writer_lock_key;
 };
 
 }
-- 
2.43.0


From 084fb04fab0b1f90babe5418092003e83cf5d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 59/84] fix: a long log message does not overflow the buffer

---
 src/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 4761d7f..6e26731 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -129,7 +129,7 @@ void Logger::Log(int level, const char* format, ...)
     char message[256];
     va_list args;
     va_start(args, format);
-    vsprintf(message, format, args);
+    vsnprintf(message, sizeof(message), format, args);
     if (log_stream != NULL) {
         char buffer[64];
         FillDateTime(buffer, sizeof(buffer));
-- 
2.43.0


From 3fac59995ed70efc56f71b93065a4efe13312c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 60/84] fix: lookups and removals with an empty or negative key
 length are refused

---
 src/db.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 08f9671..c78f52c 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -910,7 +910,7 @@ const char* DB::StatusStr() const
 bool DB::InDB(const char* key, int len, int& err)
 {
     err = MBError::SUCCESS;
-    if (key == nullptr || len == 0) {
+    if (key == nullptr || len <= 0) {
         return false;
     }
     if (status != MBError::SUCCESS) {
@@ -936,7 +936,7 @@ bool DB::InDB(const char* key, int len, int& err)
 // Find the exact key match (delegate to SearchEngine)
 int DB::Find(const char* key, int len, MBData& mdata) const
 {
-    if (key == NULL)
+    if (key == NULL || len <= 0)
         return MBError::INVALID_ARG;
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
@@ -962,7 +962,7 @@ int DB::FindLowerBound(const std::string& key, MBData& data, std::string* bound_
 
 int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* bound_key) const
 {
-    if (key == NULL)
+    if (key == NULL || len <= 0)
         return MBError::INVALID_ARG;
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
@@ -982,7 +982,7 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
 // Find the longest prefix match
 int DB::FindLongestPrefix(const char* key, int len, MBData& data) const
 {
-    if (key == NULL)
+    if (key == NULL || len <= 0)
         return MBError::INVALID_ARG;
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
@@ -1116,7 +1116,7 @@ int DB::Remove(const char* key, int len)
 {
     int rval = MBError::SUCCESS;
 
-    if (key == NULL)
+    if (key == NULL || len <= 0)
         return MBError::INVALID_ARG;
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
@@ -1137,7 +1137,7 @@ int DB::Remove(const char* key, int len)
 
 int DB::RemoveAsync(const char* key, int len)
 {
-    if (key == nullptr || len == 0)
+    if (key == nullptr || len <= 0)
         return MBError::INVALID_ARG;
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
-- 
2.43.0


From 39ed2d3f0cdb074541d541f9f07a469667eddb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 61/84] fix: Add without a value is refused

---
 src/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index c78f52c..a309fff 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1035,7 +1035,7 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
 {
     int rval = MBError::SUCCESS;
 
-    if (key == NULL)
+    if (key == NULL || mbdata.buff == NULL)
         return MBError::INVALID_ARG;
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
-- 
2.43.0


From 7f0eed610fbe41cd924ffafd5bb576e5c551104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 62/84] fix: AsyncWriterBusy, UpdateNumHandlers and Lock of a
 closed handle do not crash

---
 src/db.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index a309fff..f2bc4c9 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -142,6 +142,8 @@ int DB::Close()
         async_writer = NULL;
     }
 
+    // The lock is in the header of the db.
+    lock.Init(NULL);
     if (dict != NULL) {
         UpdateNumHandlers(options, -1);
 
@@ -175,6 +177,8 @@ int DB::UpdateNumHandlers(int mode, int delta)
 {
     int rval = MBError::SUCCESS;
 
+    if (dict == NULL)
+        return MBError::NOT_INITIALIZED;
     if (mode & CONSTS::ACCESS_MODE_WRITER)
         rval = dict->UpdateNumWriter(delta);
     else
@@ -1365,6 +1369,8 @@ bool DB::AsyncWriterEnabled() const
 
 bool DB::AsyncWriterBusy() const
 {
+    if (dict == NULL)
+        return false;
     return dict->SHMQ_Busy();
 }
 
-- 
2.43.0


From 13a7a774c51876fb561aa5cb0bb850c98a01a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 63/84] fix: eviction does not remove entries updated while it
 runs

---
 src/mb_rc.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index ec034af..bcc910b 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -121,11 +121,15 @@ int ResourceCollection::LRUEviction(int64_t max_dbsz, int64_t max_dbcnt)
 
     DB db_itr(db_ref);
     for (DB::iterator iter = db_itr.begin(false); iter != db_itr.end(); ++iter) {
-        if (CIRCULAR_PRUNE_DIFF(iter.value.bucket_index, header->eviction_bucket_index) < prune_diff) {
-            if (async_writer_ptr != NULL) {
-                rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
-            } else
-                rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
+        bool prune = CIRCULAR_PRUNE_DIFF(iter.value.bucket_index, header->eviction_bucket_index) < prune_diff;
+        if (prune && async_writer_ptr != NULL) {
+            // The entry may have been updated by a task since the iterator read it.
+            MBData data;
+            prune = db_itr.Find(iter.key, data) == MBError::SUCCESS
+                && CIRCULAR_PRUNE_DIFF(data.bucket_index, header->eviction_bucket_index) < prune_diff;
+        }
+        if (prune) {
+            rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
             if (rval != MBError::SUCCESS)
                 Logger::Log(LOG_LEVEL_DEBUG, "failed to run eviction %s", MBError::get_error_str(rval));
             else
-- 
2.43.0


From fbd34c5f5c360a1b0f573afd62a12423f68c0943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 64/84] fix: a memory-only db which is opened again starts
 empty

---
 src/dict.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 927e460..b2d5e4e 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -124,6 +124,16 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
         header->data_block_size = block_sz_data;
         header->data_size = datasize;
         header->count = 0;
+        // A memory-only db which is opened again starts as a new one.
+        header->n_states = 0;
+        header->n_edges = 0;
+        header->edge_str_size = 0;
+        header->pending_data_buff_size = 0;
+        header->pending_index_buff_size = 0;
+        header->num_update = 0;
+        header->eviction_bucket_index = 0;
+        header->queue_index.store(0, std::memory_order_release);
+        header->writer_index = 0;
         // Initialize embedded prefix cache layout only if option is set.
         // Otherwise, do not reserve space; readers will self-check consistency.
         if (options & CONSTS::OPTION_PREFIX_CACHE) {
@@ -288,6 +298,11 @@ int Dict::Init(uint32_t id)
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u initializing DictMem", id);
     try {
         mm.InitRootNode();
+        // A memory-only db which is opened again still has the root edges of the old one.
+        if (options & CONSTS::OPTION_JEMALLOC) {
+            for (int c = 0; c < NUM_ALPHABET; c++)
+                mm.ClearRootEdge(c);
+        }
     } catch (int error) {
         status = error;
         Logger::Log(LOG_LEVEL_ERROR, "connector %u failed to initialize DictMem: %s",
-- 
2.43.0


From 45f09aeb52419607f5cecc78c1694872fd864f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 65/84] fix: jemalloc dbs and the log can be used in different
 threads

---
 src/logger.cpp        |  8 ++++++++
 src/rollable_file.cpp | 23 +++++++++++++++++++----
 src/rollable_file.h   |  3 +++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 6e26731..d4cb6ba 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -17,6 +17,7 @@
 // @author Changxue Deng <chadeng@cisco.com>
 
 #include <iostream>
+#include <mutex>
 #include <stdarg.h>
 #include <unistd.h>
 
@@ -27,6 +28,9 @@
 
 namespace mabain {
 
+// The log stream is shared by all threads.
+static std::mutex log_mutex;
+
 std::string Logger::log_file = "";
 std::ofstream* Logger::log_stream = NULL;
 int Logger::log_level_ = LOG_LEVEL_INFO;
@@ -48,6 +52,7 @@ Logger::~Logger()
 
 void Logger::Close()
 {
+    std::lock_guard<std::mutex> guard(log_mutex);
     if (log_stream != NULL) {
         if (log_stream->is_open())
             log_stream->close();
@@ -61,6 +66,7 @@ void Logger::Close()
 // Readers will send logs to stdout or stderr.
 void Logger::InitLogFile(const std::string& logfile)
 {
+    std::lock_guard<std::mutex> guard(log_mutex);
     if (!logfile.empty()) {
         log_file = logfile;
         log_level_ = LOG_LEVEL_INFO;
@@ -109,6 +115,7 @@ void Logger::Log(int level, const std::string& message)
     if (level > log_level_)
         return;
 
+    std::lock_guard<std::mutex> guard(log_mutex);
     if (log_stream != NULL) {
         char buffer[80];
         FillDateTime(buffer, sizeof(buffer));
@@ -130,6 +137,7 @@ void Logger::Log(int level, const char* format, ...)
     va_list args;
     va_start(args, format);
     vsnprintf(message, sizeof(message), format, args);
+    std::lock_guard<std::mutex> guard(log_mutex);
     if (log_stream != NULL) {
         char buffer[64];
         FillDateTime(buffer, sizeof(buffer));
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 78d09ae..cb69e97 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -45,6 +45,7 @@ thread_local int g_jemalloc_alloc_error = MBError::SUCCESS;
 
 const long RollableFile::page_size = sysconf(_SC_PAGESIZE);
 std::unordered_map<unsigned, RollableFile*> RollableFile::arena_manager_map;
+std::mutex RollableFile::arena_manager_mutex;
 
 int RollableFile::ShmSync(uint8_t* addr, int size)
 {
@@ -452,7 +453,7 @@ int RollableFile::ConfigureJemalloc(MemoryManagerMetadata* mm_meta)
     extent_hooks->alloc = [](extent_hooks_t* extent_hooks, void* addr, size_t size,
                               size_t alignment, bool* zero, bool* commit,
                               unsigned arena_ind) -> void* {
-        return arena_manager_map[arena_ind]->custom_extent_alloc(addr, size, alignment,
+        return GetArenaManager(arena_ind)->custom_extent_alloc(addr, size, alignment,
             zero, commit, arena_ind);
     };
     extent_hooks->dalloc = custom_extent_dalloc;
@@ -482,7 +483,10 @@ int RollableFile::ConfigureJemalloc(MemoryManagerMetadata* mm_meta)
     }
 
     // Store the MemoryManager instance in the global map
-    arena_manager_map[arena_ind] = this;
+    {
+        std::lock_guard<std::mutex> guard(arena_manager_mutex);
+        arena_manager_map[arena_ind] = this;
+    }
     mm_meta->arena_index = arena_ind;
     return MBError::SUCCESS;
 }
@@ -707,6 +711,14 @@ void RollableFile::Purge() const
 }
 
 // Reset jemalloc
+// DBs can be used in different threads.
+RollableFile* RollableFile::GetArenaManager(unsigned arena_ind)
+{
+    std::lock_guard<std::mutex> guard(arena_manager_mutex);
+    auto search = arena_manager_map.find(arena_ind);
+    return search == arena_manager_map.end() ? nullptr : search->second;
+}
+
 int RollableFile::ResetJemalloc()
 {
     return DestroyJemallocArena(true);
@@ -725,7 +737,10 @@ int RollableFile::DestroyJemallocArena(bool reinitialize)
 
     unsigned arena_index = files[0]->mm_meta->arena_index;
     if (arena_index != 0) {
-        arena_manager_map.erase(arena_index);
+        {
+            std::lock_guard<std::mutex> guard(arena_manager_mutex);
+            arena_manager_map.erase(arena_index);
+        }
         std::string arena_destroy = "arena." + std::to_string(arena_index) + ".destroy";
         int rc = mallctl(arena_destroy.c_str(), nullptr, nullptr, nullptr, 0);
         if (rc != 0) {
@@ -751,7 +766,7 @@ int RollableFile::DestroyJemallocArena(bool reinitialize)
 void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alignment,
     bool* zero, bool* commit, unsigned arena_ind)
 {
-    RollableFile* mgr = arena_manager_map[arena_ind];
+    RollableFile* mgr = GetArenaManager(arena_ind);
     assert(mgr != nullptr);
 
     void* ptr = nullptr;
diff --git a/src/rollable_file.h b/src/rollable_file.h
index c0ea060..8490700 100644
--- a/src/rollable_file.h
+++ b/src/rollable_file.h
@@ -23,6 +23,7 @@
 #include <atomic>
 #include <memory>
 #include <stdint.h>
+#include <mutex>
 #include <string>
 #include <sys/mman.h>
 #include <unordered_map>
@@ -130,6 +131,8 @@ private:
 
     // jemalloc only
     static std::unordered_map<unsigned, RollableFile*> arena_manager_map;
+    static std::mutex arena_manager_mutex;
+    static RollableFile* GetArenaManager(unsigned arena_ind);
 };
 
 // Find the block index that contains the given pointer
-- 
2.43.0


From e3c54820229b374c9ae2023fe2459ec6db2e4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 66/84] fix: a writer which starts does not reset the counter
 of lookups in progress

---
 src/lock_free.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index afb207f..4e8a32f 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -41,8 +41,10 @@ void LockFree::LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, in
     shm_data_ptr = lock_free_ptr;
     header = hdr;
     if (mode & CONSTS::ACCESS_MODE_WRITER) {
-        // Clear the lock free data
-        shm_data_ptr->counter.store(0, MEMORY_ORDER_WRITER);
+        // Clear the lock free data. Lookups may be in progress in other processes. The counter
+        // must not return to a value which they have seen.
+        if (shm_data_ptr->counter.load(MEMORY_ORDER_READER) != 0)
+            shm_data_ptr->counter.fetch_add(MAX_OFFSET_CACHE, MEMORY_ORDER_WRITER);
         shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
     }
 }
-- 
2.43.0


From 63c086e9c0219e4e9e1d8f2024588fa6d267000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 67/84] fix: exception status is stored in order with the
 exception data

---
 src/db.cpp     | 2 +-
 src/dict.cpp   | 4 ++--
 src/drm_base.h | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index f2bc4c9..bfaf42f 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -626,7 +626,7 @@ int DB::PrepareStartupRebuild(const MBConfig& config, bool init_header)
         startup_rebuild_reset_only = true;
         Logger::Log(LOG_LEVEL_WARN,
             "jemalloc startup found exception update status %d for %s; next startup will clear DB to fresh state without recovery",
-            header->excep_updating_status, mb_dir.c_str());
+            header->excep_updating_status.load(), mb_dir.c_str());
         return MBError::SUCCESS;
     }
 
diff --git a/src/dict.cpp b/src/dict.cpp
index b2d5e4e..307103a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1559,7 +1559,7 @@ int Dict::ExceptionRecovery()
     }
 
     Logger::Log(LOG_LEVEL_INFO, "writer was not shutdown gracefully with exception status %d",
-        header->excep_updating_status);
+        header->excep_updating_status.load());
     // Dumper header before running recover
     std::ofstream* logstream = Logger::GetLogStream();
     if (logstream != NULL) {
@@ -1627,7 +1627,7 @@ int Dict::ExceptionRecovery()
         return RemoveAll();
     default:
         Logger::Log(LOG_LEVEL_ERROR, "unknown exception status: %d",
-            header->excep_updating_status);
+            header->excep_updating_status.load());
         rval = MBError::INVALID_ARG;
     }
 #ifdef __LOCK_FREE__
diff --git a/src/drm_base.h b/src/drm_base.h
index a4150ca..01f67df 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -180,7 +180,9 @@ typedef struct _IndexHeader {
     uint16_t eviction_bucket_index;
 
     // temp variables used for abnormal writer terminations
-    int excep_updating_status;
+    // Atomic so that the exception data are always stored before the status is set, and the
+    // status is cleared only after the update is complete.
+    std::atomic<int> excep_updating_status;
     uint8_t excep_buff[MB_EXCEPTION_BUFF_SIZE];
     size_t excep_offset;
     size_t excep_lf_offset;
-- 
2.43.0


From e9d88935804b00eade48a719f0db1ab7c61636a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 68/84] fix: a killed reader which was not waited for does not
 stall the startup rebuild

---
 src/mb_rc.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index bcc910b..66bc27b 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -60,9 +60,20 @@ bool ReadProcStartTimeForPid(pid_t pid, uint64_t& start_time)
 
     std::istringstream fields(stat_line.substr(rparen + 2));
     std::string token;
+    bool ended = false;
     for (int i = 0; i < 20; i++) {
         if (!(fields >> token))
             return false;
+        if (i == 0)
+            ended = token == "Z" || token == "X";
+        else if (i == 17)
+            ended = ended && token == "1";
+    }
+    if (ended) {
+        // A process which was killed, but not waited for yet, is listed with its
+        // start time. The state of the main thread does not tell about the others.
+        start_time = 0;
+        return true;
     }
 
     char* end = NULL;
-- 
2.43.0


From 24d0d06e44d88016b856d3f77534038cbbdf0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 69/84] fix: the startup rebuild waits when a lookup in
 progress holds many blocks

---
 src/mb_rc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 66bc27b..7badb79 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -620,6 +620,9 @@ int ResourceCollection::EvacuateOneIndexBlock()
 {
     if (startup_rebuild_.rebuild_index_block_cursor >= startup_rebuild_.rebuild_index_source_end)
         return MBError::RC_SKIPPED;
+    // Lookups in progress may still need the blocks which were evacuated.
+    if (startup_rebuild_.reusable_index_block_count >= MB_MAX_REUSABLE_BLOCKS)
+        return MBError::RC_SKIPPED;
 
     evacuate_index_block_start = startup_rebuild_.rebuild_index_block_cursor;
     evacuate_index_block_end = evacuate_index_block_start + header->index_block_size;
@@ -646,6 +649,9 @@ int ResourceCollection::EvacuateOneDataBlock()
 {
     if (startup_rebuild_.rebuild_data_block_cursor >= startup_rebuild_.rebuild_data_source_end)
         return MBError::RC_SKIPPED;
+    // Lookups in progress may still need the blocks which were evacuated.
+    if (startup_rebuild_.reusable_data_block_count >= MB_MAX_REUSABLE_BLOCKS)
+        return MBError::RC_SKIPPED;
 
     evacuate_data_block_start = startup_rebuild_.rebuild_data_block_cursor;
     evacuate_data_block_end = evacuate_data_block_start + header->data_block_size;
-- 
2.43.0


From 277bbf3fc9fb3449db19f33d8777fa253e38fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 70/84] fix: a writer killed while it cleared the rc tree left
 a db which could not be opened

---
 src/dict_mem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 2870701..96af624 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1084,6 +1084,8 @@ size_t DictMem::InitRootNode_RC()
     for (int i = 0; i < NUM_ALPHABET; i++) {
         root_node[NODE_EDGE_KEY_FIRST + i] = static_cast<uint8_t>(i);
     }
+    // The edges of the previous rc tree may not have been cleared.
+    memset(root_node + NODE_EDGE_KEY_FIRST + NUM_ALPHABET, 0, NUM_ALPHABET * EDGE_SIZE);
 
     if (node_move)
         WriteData(root_node, node_size[NUM_ALPHABET - 1], root_offset_rc);
@@ -1117,15 +1119,14 @@ int DictMem::ClearRootEdges_RC() const
     size_t offset;
     for (int i = 0; i < NUM_ALPHABET; i++) {
         offset = root_offset_rc + NODE_EDGE_KEY_FIRST + NUM_ALPHABET + i * EDGE_SIZE;
+        // No exception status is needed. The rc tree is not used any more and its root
+        // is beyond the end of the index.
 #ifdef __LOCK_FREE__
-        header->excep_lf_offset = offset;
-        header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
         lfree->WriterLockFreeStart(offset);
 #endif
         DRMBase::WriteData(DictMem::empty_edge, EDGE_SIZE, offset);
 #ifdef __LOCK_FREE__
         lfree->WriterLockFreeStop();
-        header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
     }
 
-- 
2.43.0


From c0abca11ceb83ebbb59e27e2ca1c96f01a640747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 71/84] fix: clearing the resources of a db left its queue
 mapped when the queue is outside of the db directory

---
 src/shm_queue_mgr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shm_queue_mgr.cpp b/src/shm_queue_mgr.cpp
index 08db03e..61970cf 100644
--- a/src/shm_queue_mgr.cpp
+++ b/src/shm_queue_mgr.cpp
@@ -67,7 +67,13 @@ shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
     int q_buff_size = sizeof(shm_lock_and_queue);
     if (qsize < MB_MAX_NUM_SHM_QUEUE_NODE)
         q_buff_size -= sizeof(AsyncNode) * (MB_MAX_NUM_SHM_QUEUE_NODE - qsize);
-    qfile = ResourcePool::getInstance().OpenFile(qfile_path,
+    // The queue file may be outside of the DB directory. Its resource belongs to the DB and must
+    // be removed with the other resources of the DB.
+    std::string qfile_key = qfile_path;
+    if (!(options & CONSTS::MEMORY_ONLY_MODE))
+        qfile_key = mbdir + "_mabain_q:" + qfile_path;
+    qfile = ResourcePool::getInstance().OpenFileWithKey(qfile_key,
+        qfile_path,
         CONSTS::ACCESS_MODE_WRITER | (options & CONSTS::MEMORY_ONLY_MODE),
         q_buff_size,
         map_qfile,
-- 
2.43.0


From d52fa8c0000d5624e412f8098c7c452966cf4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 72/84] fix: a copy of a value has a buffer of its own

---
 src/mb_data.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 src/mb_data.h   |  5 +++++
 2 files changed, 45 insertions(+)

diff --git a/src/mb_data.cpp b/src/mb_data.cpp
index 7621526..2c6e7ad 100644
--- a/src/mb_data.cpp
+++ b/src/mb_data.cpp
@@ -53,6 +53,46 @@ MBData::MBData(int size, int match_options)
     options = match_options;
 }
 
+MBData::MBData(const MBData& rhs)
+{
+    CopyFrom(rhs);
+}
+
+MBData& MBData::operator=(const MBData& rhs)
+{
+    if (this != &rhs) {
+        if (free_buffer)
+            free(buff);
+        CopyFrom(rhs);
+    }
+    return *this;
+}
+
+// The edge pointers are only used during a search and are not copied.
+void MBData::CopyFrom(const MBData& rhs)
+{
+    data_len = rhs.data_len;
+    buff = rhs.buff;
+    buff_len = rhs.buff_len;
+    data_offset = rhs.data_offset;
+    bucket_index = rhs.bucket_index;
+    options = rhs.options;
+    match_len = rhs.match_len;
+    free_buffer = rhs.free_buffer;
+
+    if (free_buffer && rhs.buff != NULL) {
+        int size = buff_len > data_len ? buff_len : data_len;
+        buff = reinterpret_cast<uint8_t*>(malloc(size + 1));
+        if (buff == NULL) {
+            free_buffer = false;
+            buff_len = 0;
+            data_len = 0;
+        } else if (data_len > 0) {
+            memcpy(buff, rhs.buff, data_len);
+        }
+    }
+}
+
 // Caller must free data.
 int MBData::TransferValueTo(uint8_t*& data, int& dlen)
 {
diff --git a/src/mb_data.h b/src/mb_data.h
index d940a7f..58a068f 100644
--- a/src/mb_data.h
+++ b/src/mb_data.h
@@ -71,6 +71,9 @@ class MBData {
 public:
     MBData();
     MBData(int size, int options);
+    // A copy has a buffer of its own unless the buffer belongs to the caller.
+    MBData(const MBData& rhs);
+    MBData& operator=(const MBData& rhs);
     ~MBData();
     // Clear the data for repeated usage
     void Clear();
@@ -99,6 +102,8 @@ public:
     uint8_t node_buff[NUM_ALPHABET + NODE_EDGE_KEY_FIRST];
 
 private:
+    void CopyFrom(const MBData& rhs);
+
     bool free_buffer;
 };
 
-- 
2.43.0


From 3fffe6b08dce77b1569dd8dfa7eaa88b241ff4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 73/84] fix: a copy of an iterator goes on instead of crashing

---
 src/iterator.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/iterator.cpp b/src/iterator.cpp
index 464272e..b774643 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -129,11 +129,43 @@ DB::iterator::iterator(const DB& db, int iter_state)
     iter_obj_init();
 }
 
+// Append a copy of each node in src to dst.
+static void copy_iterator_nodes(MBlsq* src, MBlsq* dst)
+{
+    for (uint64_t i = src->Count(); i > 0; i--) {
+        iterator_node* inode = (iterator_node*)src->RemoveFromHead();
+        iterator_node* copy = new_iterator_node(*inode->key, NULL);
+        copy->bucket_index = inode->bucket_index;
+        if (inode->data != NULL) {
+            copy->data = (uint8_t*)malloc(inode->data_len + 1);
+            if (copy->data != NULL) {
+                memcpy(copy->data, inode->data, inode->data_len);
+                copy->data_len = inode->data_len;
+            }
+        }
+        if (dst->AddToTail(copy) != MBError::SUCCESS)
+            free_iterator_node(copy);
+        if (src->AddToTail(inode) != MBError::SUCCESS)
+            free_iterator_node(inode);
+    }
+}
+
+// A copy goes on from the entry where rhs is.
 DB::iterator::iterator(const iterator& rhs)
-    : db_ref(rhs.db_ref)
+    : key(rhs.key)
+    , value(rhs.value)
+    , match(rhs.match)
+    , prefix(rhs.prefix)
+    , db_ref(rhs.db_ref)
     , state(rhs.state)
 {
     iter_obj_init();
+    if (rhs.node_stack != NULL && rhs.kv_per_node != NULL) {
+        node_stack = new MBlsq(free_iterator_node);
+        kv_per_node = new MBlsq(free_iterator_node);
+        copy_iterator_nodes(rhs.node_stack, node_stack);
+        copy_iterator_nodes(rhs.kv_per_node, kv_per_node);
+    }
 }
 
 DB::iterator::~iterator()
-- 
2.43.0


From eef5443b909a6b9ef5ff4650611f18d15a639b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 74/84] fix: mbc took any word with in( or ex( after it for
 bin( or hex(

---
 binaries/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binaries/expr_parser.cpp b/binaries/expr_parser.cpp
index 242bb19..e3b83e4 100644
--- a/binaries/expr_parser.cpp
+++ b/binaries/expr_parser.cpp
@@ -72,7 +72,7 @@ int ExprParser::Parse(std::string& result)
 
         switch (expr[pos]) {
         case 'b': { // bin(...) expression
-            if (expr.find("in(", pos + 1, 3) == std::string::npos) {
+            if (expr.compare(pos, 4, "bin(") != 0) {
                 err_str = "unrecognized expression " + expr.substr(pos);
                 return -1;
             }
@@ -104,7 +104,7 @@ int ExprParser::Parse(std::string& result)
             break;
         }
         case 'h': { // hex(...) expression
-            if (expr.find("ex(", pos + 1, 3) == std::string::npos) {
+            if (expr.compare(pos, 4, "hex(") != 0) {
                 err_str = "unrecognized expression " + expr.substr(pos);
                 return -1;
             }
-- 
2.43.0


From 9d95561b8519cdf984f435e364a5d1311d3f2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 75/84] fix: a reclaimResources query without numbers ended mbc

---
 binaries/mbc.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/binaries/mbc.cpp b/binaries/mbc.cpp
index cd759e8..513ffe4 100644
--- a/binaries/mbc.cpp
+++ b/binaries/mbc.cpp
@@ -28,6 +28,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <stdexcept>
 #include <string>
 
 #include "db.h"
@@ -484,8 +485,13 @@ static int RunCommand(int mode, DB* db, int cmd_id, const std::string& key,
         db->PrintHeader();
         break;
     case COMMAND_RECLAIM_RESOURCES:
-        db->CollectResource(arg_list.size() >= 1 ? stol(arg_list[0]) : 1,
-            arg_list.size() >= 2 ? stol(arg_list[1]) : 1);
+        try {
+            db->CollectResource(arg_list.size() >= 1 ? stol(arg_list[0]) : 1,
+                arg_list.size() >= 2 ? stol(arg_list[1]) : 1);
+        } catch (const std::exception&) {
+            // not a number
+            std::cout << "invalid query\n";
+        }
         break;
     case COMMAND_PARSING_ERROR:
         std::cout << "invalid query\n";
-- 
2.43.0


From 0d3c1b9090816e24661b808d0dffc3a422d3ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 76/84] fix: WriteDataByOffset crashed on offsets beyond the
 db, negative lengths and NULL data

---
 src/db.cpp            | 2 ++
 src/dict.cpp          | 4 ++--
 src/rollable_file.cpp | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index bfaf42f..a69814a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1016,6 +1016,8 @@ int DB::ReadDataByOffset(size_t offset, MBData& data) const
 
 int DB::WriteDataByOffset(size_t offset, const char* data, int data_len) const
 {
+    if (data == NULL || data_len < 0)
+        return MBError::INVALID_ARG;
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
 
diff --git a/src/dict.cpp b/src/dict.cpp
index 307103a..108c88a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1649,7 +1649,7 @@ void Dict::WriteData(const uint8_t* buff, unsigned len, size_t offset) const
     if (options & CONSTS::OPTION_JEMALLOC) {
         kv_file->MemWrite(buff, len, offset);
     } else {
-        if (offset + len > header->m_data_offset) {
+        if (offset > header->m_data_offset || len > header->m_data_offset - offset) {
             std::cerr << "invalid dict write: " << offset << " " << len << " "
                       << header->m_data_offset << "\n";
             throw (int)MBError::OUT_OF_BOUND;
@@ -1674,7 +1674,7 @@ int Dict::ReadDataByOffset(size_t offset, MBData& data) const
     // resize data buffer using size from header
     data.Resize(hdr[0]);
     offset += DATA_HDR_BYTE;
-    if (ReadData(data.buff, hdr[0], offset) != hdr[0]) {
+    if (hdr[0] > 0 && ReadData(data.buff, hdr[0], offset) != hdr[0]) {
         return MBError::READ_ERROR;
     }
     return MBError::SUCCESS;
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index cb69e97..f641b98 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -637,13 +637,13 @@ size_t RollableFile::GetExistingBlockEnd() const
 // offset is the total offset. It is used to find the block order and relative offset within the block.
 size_t RollableFile::MemWrite(const void* src, size_t size, size_t offset)
 {
-    int block_order = offset / block_size;
+    size_t block_order = offset / block_size;
     size_t relative_offset = offset % block_size;
     if (relative_offset + size > block_size) {
         throw (int)MBError::OUT_OF_BOUND;
     }
     // Ensure the target block is opened/mapped in jemalloc mode
-    if (block_order >= (int)files.size() || files[block_order] == nullptr) {
+    if (block_order >= files.size() || files[block_order] == nullptr) {
         int rval = CheckAndOpenFile(block_order, false);
         if (rval != MBError::SUCCESS || files[block_order] == nullptr) {
             throw (int)MBError::MMAP_FAILED;
-- 
2.43.0


From b874f503a14471016a3dce0965d55977faaa71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 77/84] fix: a db was erased when the system refused to open or
 map one of its files

---
 src/db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index a69814a..00d1556 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -792,7 +792,10 @@ void DB::InitDB(MBConfig& config)
     int fd = acquire_file_lock_wait_n(lock_file, 5000);
     InitDBEx(config);
     if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open()
-        && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED) {
+        && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED
+        // The DB is not corrupted if the system refuses to open or map a file.
+        && status != MBError::OPEN_FAILURE && status != MBError::MMAP_FAILED
+        && status != MBError::NO_MEMORY) {
         ReInit(config);
     }
     release_file_lock(fd);
-- 
2.43.0


From a50ff10370f019e87717e7bc4561a7fe4bf4b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 78/84] fix: a file that could not be mapped was used as if it
 were mapped

---
 src/resource_pool.cpp | 8 +++++++-
 src/rollable_file.cpp | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index f37cfda..c7c8402 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -108,6 +108,8 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
             return NULL;
         }
 
+        // A file that could not be mapped is not kept for other handles.
+        bool keep_file = true;
         if (map_file) {
             if (mmap_file->MapFile(file_size, 0) != NULL) {
                 if (!(mode & CONSTS::MEMORY_ONLY_MODE))
@@ -121,12 +123,16 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
             } else {
                 Logger::Log(LOG_LEVEL_DEBUG, "failed to map file %s", fpath.c_str());
                 map_file = false;
+                keep_file = false;
             }
         }
 
-        file_pool[pool_key] = mmap_file;
+        if (keep_file)
+            file_pool[pool_key] = mmap_file;
     } else {
         mmap_file = search->second;
+        if (map_file && mmap_file != nullptr && !mmap_file->IsMapped())
+            map_file = false;
     }
 
     pthread_mutex_unlock(&pool_mutex);
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index f641b98..09fd902 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -178,6 +178,8 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
                 rval = ConfigureJemalloc(files[0]->mm_meta);
         }
     } else if ((mode & CONSTS::MEMORY_ONLY_MODE) || (mode & CONSTS::OPTION_JEMALLOC)) {
+        // There is no other way to access the block.
+        files[block_order] = nullptr;
         rval = MBError::MMAP_FAILED;
     }
     return rval;
@@ -366,7 +368,7 @@ size_t RollableFile::RandomRead(void* buff, size_t size, off_t offset)
     size_t order = offset / block_size;
 
     int rval = CheckAndOpenFile(order, false);
-    if (rval != MBError::SUCCESS && rval != MBError::MMAP_FAILED)
+    if (rval != MBError::SUCCESS)
         return 0;
 
     if (sliding_mmap) {
-- 
2.43.0


From 07295d300408869c6493430265fe48c2b90f7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 79/84] fix: a failed open of a db kept the free lists and
 other memory

---
 src/dict.cpp     | 2 ++
 src/dict_mem.cpp | 5 +++++
 src/drm_base.h   | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 108c88a..56d6565 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -328,9 +328,11 @@ void Dict::Destroy()
 
     if (free_lists != NULL)
         delete free_lists;
+    free_lists = NULL;
 
     if (kv_file != NULL)
         delete kv_file;
+    kv_file = NULL;
 }
 
 int Dict::Status() const
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 96af624..b0d894e 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -253,20 +253,25 @@ void DictMem::InitRootNode()
 
 DictMem::~DictMem()
 {
+    Destroy();
 }
 
 void DictMem::Destroy()
 {
     if (kv_file != NULL)
         delete kv_file;
+    kv_file = NULL;
 
     if (free_lists != NULL)
         delete free_lists;
+    free_lists = NULL;
 
     if (node_size != NULL)
         delete[] node_size;
+    node_size = NULL;
     if (node_ptr != NULL)
         delete[] node_ptr;
+    node_ptr = NULL;
 }
 
 bool DictMem::IsValid() const
diff --git a/src/drm_base.h b/src/drm_base.h
index 01f67df..f35bcac 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -269,8 +269,11 @@ public:
         }
     }
 
+    // Anything not released by Destroy is left by a constructor which failed.
     ~DRMBase()
     {
+        delete free_lists;
+        delete kv_file;
     }
 
     inline virtual void WriteData(const uint8_t* buff, unsigned len, size_t offset) const = 0;
-- 
2.43.0


From 41a006b900b7a07e4e15696b6ce6a628224cb216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:30 +0000
Subject: [PATCH 80/84] fix: a Remove that failed to read the data length had
 already removed the entry

---
 src/dict.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 56d6565..1951852 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -817,6 +817,11 @@ int Dict::DeleteDataFromEdge(const uint8_t* key, int len, MBData& data)
             return MBError::READ_ERROR;
 
         if (node_buff[0] & FLAG_NODE_MATCH) {
+            data_off = Get6BInteger(node_buff + 2);
+            if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
+                != DATA_SIZE_BYTE)
+                return MBError::READ_ERROR;
+
             // Unset the match flag
             node_buff[0] &= ~FLAG_NODE_MATCH;
 #ifdef __LOCK_FREE__
@@ -828,11 +833,6 @@ int Dict::DeleteDataFromEdge(const uint8_t* key, int len, MBData& data)
 #endif
 
             // Release data buffer
-            data_off = Get6BInteger(node_buff + 2);
-            if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
-                != DATA_SIZE_BYTE)
-                return MBError::READ_ERROR;
-
             if (options & CONSTS::OPTION_JEMALLOC) {
                 rel_size = data_len + DATA_HDR_BYTE;
             } else {
-- 
2.43.0


From 70ad5eea59709e81167ec1bcd7ece980caf5ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 81/84] fix: removing all entries of a jemalloc db let an
 exception escape from the open

---
 src/dict.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 1951852..0125fcd 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1140,9 +1140,14 @@ int Dict::RemoveAll()
     header->excep_updating_status = EXCEP_STATUS_REMOVE_ALL;
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
-        mm.InitRootNode();
-        kv_file->ResetJemalloc();
-        (void)kv_file->PreAlloc(GetStartDataOffset());
+        try {
+            mm.InitRootNode();
+            kv_file->ResetJemalloc();
+            (void)kv_file->PreAlloc(GetStartDataOffset());
+        } catch (int err) {
+            Logger::Log(LOG_LEVEL_ERROR, "failed to remove all entries: %s", MBError::get_error_str(err));
+            return err;
+        }
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
-- 
2.43.0


From 0da2aa3d156e3ba2778e3a11f7a49194bc809e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 82/84] fix: lookups of an edge failed after a write to it had
 failed

---
 src/dict.cpp      | 7 ++++++-
 src/dict_mem.cpp  | 7 ++++++-
 src/dict_mem.h    | 9 +++++++--
 src/lock_free.cpp | 7 +++++++
 src/lock_free.h   | 2 ++
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0125fcd..ca16deb 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1662,8 +1662,13 @@ void Dict::WriteData(const uint8_t* buff, unsigned len, size_t offset) const
             throw (int)MBError::OUT_OF_BOUND;
         }
 
-        if (kv_file->RandomWrite(buff, len, offset) != len)
+        if (kv_file->RandomWrite(buff, len, offset) != len) {
+#ifdef __LOCK_FREE__
+            if (options & CONSTS::ACCESS_MODE_WRITER)
+                const_cast<LockFree&>(lfree).WriterLockFreeAbort();
+#endif
             throw (int)MBError::WRITE_ERROR;
+        }
     }
 }
 
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index b0d894e..c36f76c 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1590,8 +1590,13 @@ void DictMem::WriteData(const uint8_t* buff, unsigned len, size_t offset) const
             throw (int)MBError::OUT_OF_BOUND;
         }
 
-        if (kv_file->RandomWrite(buff, len, offset) != len)
+        if (kv_file->RandomWrite(buff, len, offset) != len) {
+#ifdef __LOCK_FREE__
+            if (lfree != NULL && (options & CONSTS::ACCESS_MODE_WRITER))
+                lfree->WriterLockFreeAbort();
+#endif
             throw (int)MBError::WRITE_ERROR;
+        }
     }
 }
 
diff --git a/src/dict_mem.h b/src/dict_mem.h
index e9749a3..79b1072 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -146,7 +146,7 @@ private:
     uint8_t* node_ptr;
 
     // lock free pointer
-    LockFree* lfree;
+    LockFree* lfree = NULL;
 
     // header file
     std::shared_ptr<MmapFileIO> header_file;
@@ -165,8 +165,13 @@ inline void DictMem::WriteEdge(const EdgePtrs& edge_ptrs) const
             throw (int)MBError::OUT_OF_BOUND;
         }
 
-        if (kv_file->RandomWrite(edge_ptrs.ptr, EDGE_SIZE, edge_ptrs.offset) != EDGE_SIZE)
+        if (kv_file->RandomWrite(edge_ptrs.ptr, EDGE_SIZE, edge_ptrs.offset) != EDGE_SIZE) {
+#ifdef __LOCK_FREE__
+            if (lfree != NULL)
+                lfree->WriterLockFreeAbort();
+#endif
             throw (int)MBError::WRITE_ERROR;
+        }
     }
 }
 
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index 4e8a32f..16a684f 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -61,6 +61,13 @@ void LockFree::WriterLockFreeStop()
     shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
 }
 
+void LockFree::WriterLockFreeAbort()
+{
+    // The lookups of the edge must not wait for an update which does not go on.
+    if (shm_data_ptr != NULL && shm_data_ptr->offset.load(MEMORY_ORDER_READER) != MAX_6B_OFFSET)
+        WriterLockFreeStop();
+}
+
 //////////////////////////////////////////////////
 // DO NOT CHANGE THE LOAD ORDER IN THIS FUNCTION.
 //////////////////////////////////////////////////
diff --git a/src/lock_free.h b/src/lock_free.h
index 8e3889a..9b39e98 100644
--- a/src/lock_free.h
+++ b/src/lock_free.h
@@ -55,6 +55,8 @@ public:
     void LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, int mode = 0);
     inline void WriterLockFreeStart(size_t offset);
     void WriterLockFreeStop();
+    // The update was given up as it could not be written.
+    void WriterLockFreeAbort();
     inline void ReaderLockFreeStart(LockFreeData& snapshot);
     // If there was race condition, this function returns MBError::TRY_AGAIN.
     int ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
-- 
2.43.0


From 2b0cb4a74dfeb827221024c93cfbd17fa000d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 83/84] fix: an addition took a read error for a missing edge
 and hid the entries below it

---
 src/dict_mem.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index c36f76c..9918d08 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -744,9 +744,9 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     // Read node flags and nt-1
     uint8_t node_flag;
     if (ReadData(&node_flag, 1, node_base_off) != 1)
-        return false;
+        throw (int)MBError::READ_ERROR;
     if (ReadData(key_tmp, 1, node_base_off + 1) != 1)
-        return false;
+        throw (int)MBError::READ_ERROR;
     bool sorted = (node_flag & FLAG_NODE_SORTED);
     int nt = key_tmp[0];
     edge_ptr.curr_nt = nt;
@@ -754,7 +754,7 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     // Load edge key first
     const size_t first_char_off = node_base_off + NODE_EDGE_KEY_FIRST;
     if (ReadData(key_tmp, nt, first_char_off) != nt)
-        return false;
+        throw (int)MBError::READ_ERROR;
     int match_idx, less_idx_unused, max_idx_unused;
     select_edge_indices(key_tmp, nt, key[0], sorted, match_idx, less_idx_unused, max_idx_unused);
     if (match_idx < 0)
@@ -765,7 +765,7 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     // Load the new edge
     edge_ptr.offset = edge_offset_of(node_base_off, nt, match_idx);
     if (ReadData(header->excep_buff, EDGE_SIZE, edge_ptr.offset) != EDGE_SIZE)
-        return false;
+        throw (int)MBError::READ_ERROR;
 
     int edge_len_m1 = edge_ptr.len_ptr[0] - 1;
     if (edge_len_m1 <= 0)
@@ -782,7 +782,7 @@ bool DictMem::FindNext(const unsigned char* key, int keylen, int& match_len,
     if (edge_len_m1 > LOCAL_EDGE_LEN_M1) {
         // Remote string: only read the needed prefix
         if (ReadData(key_tmp, cmp_len, Get5BInteger(edge_ptr.ptr)) != cmp_len)
-            return false;
+            throw (int)MBError::READ_ERROR;
         edge_bytes = key_tmp;
     } else {
         // Local string is stored inline starting at ptr
-- 
2.43.0


From f47dbc09f7f519f59c8c9f32e5c309f3e105146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 84/84] fix: an exception escaped from RemoveAll and buffers in
 use were released before their edges were cleared

---
 src/dict.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index ca16deb..d97eae9 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1138,27 +1138,25 @@ int Dict::RemoveAll()
     ClearPrefixCache();
     // It has to be run again if the writer is terminated before it is done.
     header->excep_updating_status = EXCEP_STATUS_REMOVE_ALL;
-    mm.ClearMem(); // clear memory will re-initialize jemalloc
-    if (options & CONSTS::OPTION_JEMALLOC) {
-        try {
+    try {
+        if (options & CONSTS::OPTION_JEMALLOC) {
+            mm.ClearMem(); // clear memory will re-initialize jemalloc
             mm.InitRootNode();
             kv_file->ResetJemalloc();
             (void)kv_file->PreAlloc(GetStartDataOffset());
-        } catch (int err) {
-            Logger::Log(LOG_LEVEL_ERROR, "failed to remove all entries: %s", MBError::get_error_str(err));
-            return err;
         }
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
-                break;
-        }
-    } else {
-        for (int c = 0; c < NUM_ALPHABET; c++) {
-            rval = mm.ClearRootEdge(c);
-            if (rval != MBError::SUCCESS)
-                break;
+                return rval;
         }
+    } catch (int err) {
+        Logger::Log(LOG_LEVEL_ERROR, "failed to remove all entries: %s", MBError::get_error_str(err));
+        return err;
+    }
+    if (!(options & CONSTS::OPTION_JEMALLOC)) {
+        // The buffers can be used again only after all the edges are cleared.
+        mm.ClearMem();
         header->m_data_offset = GetStartDataOffset();
         free_lists->Empty();
     }
-- 
2.43.0

