From 17e79a9dccfc28e61c8eb8b9b7efc5e176efe65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 01/44] sim hook: table sizes selectable under QDD_SIM (off by
 default)

---
 include/common.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/common.h b/include/common.h
index 88e95c2..de3a301 100644
--- a/include/common.h
+++ b/include/common.h
@@ -25,11 +25,21 @@
 
 using duration_micro = std::chrono::duration<double, std::micro>;
 
+#ifndef QDD_SIM
 const std::size_t NQUBITS = 100;
 const std::size_t NBUCKETS = 524288;
 const std::size_t INITIAL_ALLOCATION_SIZE = 1024*2;
 const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = 1024*8;
 const std::size_t GROWTH_FACTOR = 2;
+#else
+// Simulation builds only: the table sizes are chosen per build, so that many
+// engines fit in one process and collisions, evictions and growth are frequent.
+const std::size_t NQUBITS = QDD_SIM_NQUBITS;
+const std::size_t NBUCKETS = QDD_SIM_NBUCKETS;
+const std::size_t INITIAL_ALLOCATION_SIZE = QDD_SIM_ALLOC;
+const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = QDD_SIM_ALLOC_CACHE;
+const std::size_t GROWTH_FACTOR = 2;
+#endif
 
 using Qubit = int32_t;
 using QubitCount = uint32_t;
-- 
2.43.0


From 87350d9a1592ffd19329df88e8c1059ba727c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 02/44] fix: an allocation failure during garbage collection no
 longer loses the surviving states, gates or caches

---
 include/cache.hpp | 14 ++++++++++----
 src/dd.cpp        | 10 ++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/cache.hpp b/include/cache.hpp
index 396b41e..b61287d 100644
--- a/include/cache.hpp
+++ b/include/cache.hpp
@@ -93,15 +93,18 @@ class AddCache{
         std::lock_guard<std::shared_mutex> lock(c._mtx);
         #endif
         
+        // Allocate first: a failure must leave the cache as it was.
+        std::vector<std::vector<Bucket>> fresh;
+        fresh.emplace_back(INITIAL_ALLOCATION_SIZE_CACHE);
+
         for(std::vector<Table>& vt: _tables){
             for(Table& t: vt){
                 std::memset(t._table, 0, sizeof(void*)*NBUCKETS);
             }
         }
 
-        std::vector<std::vector<AddCache::Bucket>>().swap(c.chunks);
+        fresh.swap(c.chunks);
         c.chunkID = 0;
-        c.chunks.emplace_back(std::vector<Bucket>(INITIAL_ALLOCATION_SIZE_CACHE));
 
         c.chunkIt = c.chunks[0].begin();
         c.chunkEndIt = c.chunks[0].end();
@@ -356,15 +359,18 @@ class MulCache{
         std::lock_guard<std::shared_mutex> lock(c._mtx);
         #endif
 
+        // Allocate first: a failure must leave the cache as it was.
+        std::vector<std::vector<Bucket>> fresh;
+        fresh.emplace_back(INITIAL_ALLOCATION_SIZE_CACHE);
+
         for(std::vector<Table>& vt: _tables){
             for(Table& t: vt){
                 std::memset(t._table, 0, sizeof(void*)*NBUCKETS);
             }
         }
 
-        std::vector<std::vector<MulCache::Bucket>>().swap(c.chunks);
+        fresh.swap(c.chunks);
         c.chunkID = 0;
-        c.chunks.emplace_back(std::vector<Bucket>(INITIAL_ALLOCATION_SIZE_CACHE));
 
         c.chunkIt = c.chunks[0].begin();
         c.chunkEndIt = c.chunks[0].end();
diff --git a/src/dd.cpp b/src/dd.cpp
index 8527000..aa06e60 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2379,10 +2379,11 @@ std::vector<vEdge> gc(std::vector<vEdge> states, bool force) {
     std::cout << "GC_SIZE = " << GC_SIZE << " Current nNodes = " << nNodes
               << std::endl;
 
+    // Rebuild completely before dropping the old table: if an allocation fails
+    // on the way, the caller's states are still valid.
     vNodeTable new_table(NQUBITS);
-    vUnique = std::move(new_table);
     for(int i=0; i<states.size(); i++){
-        states[i].n = vec_to_vNode(v[i], vUnique, i==0);
+        states[i].n = vec_to_vNode(v[i], new_table, i==0);
     }
 
 #if defined(isMT) && !defined(CACHE_GLOBAL)
@@ -2396,6 +2397,7 @@ std::vector<vEdge> gc(std::vector<vEdge> states, bool force) {
     _mCache.clearAll();
     _aCache.clearAll();
 #endif
+    vUnique = std::move(new_table);
     std::cout << "gc_done " << std::endl;
     return states;
 }
@@ -2426,9 +2428,8 @@ std::vector<mEdge> gc_mat(std::vector<mEdge> mats, bool force) {
     std::cout << " Current nNodes = " << nNodes << std::endl;
 
     mNodeTable new_table(NQUBITS);
-    mUnique = std::move(new_table);
     for(int i=0; i<mats.size();i++){
-        mats[i].n = vec_to_mNode(m[i], mUnique, i==0);
+        mats[i].n = vec_to_mNode(m[i], new_table, i==0);
     }
 
     // Clear identityTable
@@ -2447,6 +2448,7 @@ std::vector<mEdge> gc_mat(std::vector<mEdge> mats, bool force) {
     _mCache.clearAll();
     _aCache.clearAll();
 #endif
+    mUnique = std::move(new_table);
     std::cout << "gc_mat_done " << std::endl;
     return mats;
 }
-- 
2.43.0


From cef7e4bce119cd6d1eac519c67ceb66be67ca132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 03/44] fix: distributed multiply used the wrong gate block
 when identity levels were stripped

getMPIGate assumed that the top level of the matrix diagram is the top qubit.
Levels removed by identity stripping are now treated as diagonal.
---
 include/dd.h |  2 +-
 src/dd.cpp   | 25 ++++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 500ed13..294c323 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -454,7 +454,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g, const std::vector<Qubit> &ta
 mEdge makeLargeGate(ComplexMatrix &g, const Qubit level, const std::size_t rowStart, const std::size_t rowEnd,
                     const std::size_t colStart, const std::size_t colEnd, const std::vector<bool> skip, const Qubit target_min);
 
-mEdge getMPIGate(mEdge root, int row, int col, int world_size);
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level = -1);
 
 mEdge mm_add(const mEdge &lhs, const mEdge &rhs);
 mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs);
diff --git a/src/dd.cpp b/src/dd.cpp
index aa06e60..894b0d4 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -601,10 +601,13 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
 }
 
 #ifdef isMPI
-mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
-    if (root.isTerminal() || world_size <= 1) {
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level) {
+    if (world_size <= 1) {
         return root;
     }
+    if (level < 0) {
+        level = root.getVar();
+    }
 
     // Check world_size is 2^n
     assert((world_size & world_size - 1) == 0);
@@ -624,9 +627,17 @@ mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
     if (col >= border) {
         index += 1;
     }
+    if (root.isTerminal() || root.getVar() < level) {
+        // Identity stripping removed this level: both diagonal blocks are
+        // 'root' itself and the off-diagonal ones are zero.
+        if (index == 1 || index == 2) {
+            return mEdge::zero;
+        }
+        return getMPIGate(root, row % border, col % border, border, level - 1);
+    }
     mEdge tmp = root.getNode()->children[index];
     tmp.w *= root.w;
-    return getMPIGate(tmp, row % border, col % border, border);
+    return getMPIGate(tmp, row % border, col % border, border, level - 1);
 }
 #endif
 
@@ -687,7 +698,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     std::unordered_map<vNode *, int> rhs_map;
 
     send_data.first = rhs.w;
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -705,7 +716,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         send_reqs.push_back(world.isend(right_neighbor, i, send_data));
         world.recv(left_neighbor, i, recv_data);
         int col = (row - i + world.size()) % small_world_size + offset;
-        gate = getMPIGate(lhs, row, col, world_size);
+        gate = getMPIGate(lhs, row, col, world_size, total_qubits - 1);
         // bmpi::wait_all(std::begin(recv_reqs), std::end(recv_reqs));
         vEdge received = {recv_data.first,
                           vec_to_vNode(recv_data.second, vUnique)};
@@ -827,7 +838,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     int right_neighbor = (world.rank() + 1) % world_size;
 
     // calculate initial result
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -845,7 +856,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         } else {
             std::pair<std_complex, std::vector<vContent>> recv_data;
             bmpi::broadcast(world, recv_data, i);
-            gate = getMPIGate(lhs, row, i, world_size);
+            gate = getMPIGate(lhs, row, i, world_size, total_qubits - 1);
             vEdge received = {recv_data.first,
                               vec_to_vNode(recv_data.second, vUnique)};
             result = vv_add(result, mv_multiply(gate, received));
-- 
2.43.0


From 3bc8fb8fbdd787872dbbfcebd884920bfde3a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 04/44] fix: distributed measurement looked at the wrong bit of
 the rank

For a distributed qubit the value is given by bit (index - local_size) of the
rank, not by bit 0.
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 894b0d4..447f6e2 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1751,7 +1751,7 @@ char measureOneCollapsingMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
@@ -1822,7 +1822,7 @@ double measureOneMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
-- 
2.43.0


From 7ac9f126a7af4b166f4cf51d5d656dad5fd6d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 05/44] fix: probabilities of a distributed state were
 misaligned by empty slices

A rank whose slice is zero contributed one entry instead of 2^local_qubits.
---
 src/dd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 447f6e2..7a1c67a 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1551,6 +1551,12 @@ std::vector<double> probabilitiesMPI(bmpi::communicator &world,
                                      const vEdge &rootEdge) {
     const double each_prob = assignProbabilities(rootEdge);
     std::vector<double> each_result = probabilities(rootEdge);
+    // An empty (all-zero) slice has no nodes that tell its number of qubits.
+    const int local_qubits = bmpi::all_reduce(
+        world, int(rootEdge.getVar() + 1), bmpi::maximum<int>());
+    if (rootEdge.isTerminal()) {
+        each_result.assign(std::size_t(1) << local_qubits, 0.0);
+    }
     const double all_prob =
         bmpi::all_reduce(world, each_prob, std::plus<double>());
     std::for_each(each_result.begin(), each_result.end(),
-- 
2.43.0


From 0cd488279602c43815008f50c62d173770abdbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 06/44] fix: a distributed measurement could select a rank of
 probability zero

With a draw at a boundary the first rank was chosen even if its slice is empty.
---
 src/dd.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 7a1c67a..56c817a 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1598,9 +1598,11 @@ std::string measureAllMPI(bmpi::communicator &world, vEdge &rootEdge,
         int target_rank = 0;
         for (int i = 0; i < world.size(); i++) {
             current += vec_prob[i];
-            target_rank = i;
-            if (threshold <= current) {
-                break;
+            if (vec_prob[i] > 0) {
+                target_rank = i;
+                if (threshold < current) {
+                    break;
+                }
             }
         }
         const int pre_length = log2(world.size());
-- 
2.43.0


From 1335aa5c1c9ea24c4795cf1c7e1b466526a8e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 07/44] fix: adjust_weight crashed on a rank whose slice is
 zero

The traversal ran off an empty queue; the norm of the slice is all it needs.
---
 src/dd.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 56c817a..41f546e 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2361,8 +2361,7 @@ void dump(boost::mpi::communicator &world, vEdge e, int cycle) {
 }
 
 double adjust_weight(bmpi::communicator &world, vEdge rootEdge) {
-    const auto &[pzero, pone] = determineMeasurementProbabilities(rootEdge, 0);
-    double amp = pzero + pone;
+    double amp = assignProbabilities(rootEdge);
     double amp_sum = bmpi::all_reduce(world, amp, std::plus<double>());
     assert(amp_sum > 0);
     rootEdge.w = rootEdge.w / std_complex(std::sqrt(amp_sum), 0);
-- 
2.43.0


From 4f9f84cce81ab78af4266089d0ad10d69f139aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 08/44] fix: non-blocking transfer of a state lost its data

receive_dd built the state before its data had arrived, and send_dd let the
buffers go out of scope while the transfer was still in progress.
---
 src/dd.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 41f546e..9da0ebd 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -22,6 +22,7 @@
 #include <boost/mpi/communicator.hpp>
 #include <boost/mpi/environment.hpp>
 #include <boost/serialization/utility.hpp>
+#include <list>
 #endif
 
 #ifdef isMT
@@ -2319,23 +2320,50 @@ vEdge receive_dd(boost::mpi::communicator &world, int source_node_id,
         world.recv(source_node_id, 0, w);
         world.recv(source_node_id, 1, v);
     } else {
-        world.irecv(source_node_id, 0, w);
-        world.irecv(source_node_id, 1, v);
+        // Both receives are posted at once, but the state can only be built
+        // when its data has arrived.
+        bmpi::request reqs[2];
+        reqs[0] = world.irecv(source_node_id, 0, w);
+        reqs[1] = world.irecv(source_node_id, 1, v);
+        bmpi::wait_all(reqs, reqs + 2);
     }
     return {w, vec_to_vNode(v, vUnique)};
 }
 
+// The data of a non-blocking send has to stay alive until it was transferred.
+struct PendingSend {
+    std_complex w;
+    std::vector<vContent> v;
+    bmpi::request reqs[2];
+    bool done[2] = {false, false};
+};
+static std::list<PendingSend> pendingSends;
+
+static void reapPendingSends() {
+    for (auto it = pendingSends.begin(); it != pendingSends.end();) {
+        for (int i = 0; i < 2; i++) {
+            if (!it->done[i] && it->reqs[i].test()) it->done[i] = true;
+        }
+        it = (it->done[0] && it->done[1]) ? pendingSends.erase(it) : ++it;
+    }
+}
+
 void send_dd(boost::mpi::communicator &world, vEdge e, int dest_node_id,
              bool isBlocking) {
     std::vector<vContent> v;
     std::unordered_map<vNode *, int> mpi_map;
     vNode_to_vec(e.n, v, mpi_map);
+    reapPendingSends();
     if (isBlocking) {
         world.send(dest_node_id, 0, e.w);
         world.send(dest_node_id, 1, v);
     } else {
-        world.isend(dest_node_id, 0, e.w);
-        world.isend(dest_node_id, 1, v);
+        pendingSends.emplace_back();
+        PendingSend &p = pendingSends.back();
+        p.w = e.w;
+        p.v = std::move(v);
+        p.reqs[0] = world.isend(dest_node_id, 0, p.w);
+        p.reqs[1] = world.isend(dest_node_id, 1, p.v);
     }
     return;
 };
-- 
2.43.0


From a14bac49ece7528a473561336fa4b3a4a17ea271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 09/44] fix: a saved state lost the weight of its root edge

save_binary wrote only the nodes and load_binary assumed a root weight of 1.
---
 src/dd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 9da0ebd..f93435e 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2192,17 +2192,20 @@ void save_binary(vEdge edge, std::string file_name) {
     std::ofstream binary_ofs(file_name);
     boost::archive::binary_oarchive binary_oa(binary_ofs);
     binary_oa << v;
+    binary_oa << edge.w;
     binary_ofs.close();
     std::cout << "nNodes=" << nNodes << std::endl;
 }
 
 vEdge load_binary(std::string file_name) {
     std::vector<vContent> v;
+    std_complex w;
     std::ifstream binary_ifs(file_name);
     boost::archive::binary_iarchive binary_ia(binary_ifs);
     binary_ia >> v;
+    binary_ia >> w;
     binary_ifs.close();
-    vEdge result = {{1.0, 0.0}, vec_to_vNode(v, vUnique)};
+    vEdge result = {w, vec_to_vNode(v, vUnique)};
     return result;
 }
 #endif
-- 
2.43.0


From 31d42e7dd2ace76cff4c80ca7ac9de75f6e781a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 10/44] fix: save_binary reported success when the data did not
 reach the disk

Errors of the final flush and of closing the file were ignored.
---
 src/dd.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f93435e..bcd86be 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2189,18 +2189,23 @@ void save_binary(vEdge edge, std::string file_name) {
     std::vector<vContent> v;
     std::unordered_map<vNode *, int> map;
     int nNodes = vNode_to_vec(edge.n, v, map);
-    std::ofstream binary_ofs(file_name);
-    boost::archive::binary_oarchive binary_oa(binary_ofs);
-    binary_oa << v;
-    binary_oa << edge.w;
+    std::ofstream binary_ofs(file_name, std::ios::binary);
+    {
+        boost::archive::binary_oarchive binary_oa(binary_ofs);
+        binary_oa << v;
+        binary_oa << edge.w;
+    }
     binary_ofs.close();
+    if (!binary_ofs) {
+        throw std::runtime_error("save_binary: could not write " + file_name);
+    }
     std::cout << "nNodes=" << nNodes << std::endl;
 }
 
 vEdge load_binary(std::string file_name) {
     std::vector<vContent> v;
     std_complex w;
-    std::ifstream binary_ifs(file_name);
+    std::ifstream binary_ifs(file_name, std::ios::binary);
     boost::archive::binary_iarchive binary_ia(binary_ifs);
     binary_ia >> v;
     binary_ia >> w;
-- 
2.43.0


From b719de71b1e2c0265c298df54dd37ea7bfbbc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 11/44] fix: a worker pool could miss its stop signal, and no
 pool could follow an earlier one

---
 include/task.h |  9 +++++++--
 src/task.cpp   | 25 ++++++++++++++++---------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/task.h b/include/task.h
index 36ab95e..8e7a53f 100644
--- a/include/task.h
+++ b/include/task.h
@@ -8,8 +8,10 @@
 #include <boost/fiber/condition_variable.hpp>
 #include <boost/fiber/algo/algorithm.hpp>
 #include "wsq.hpp"
+#include <boost/fiber/detail/thread_barrier.hpp>
 #include <thread>
 #include <atomic>
+#include <memory>
 #include <vector>
 #include "dd.h"
 #include "table.hpp"
@@ -25,6 +27,7 @@ class my_ws : public algorithm {
 private:
     static std::atomic< std::uint32_t >                     counter_;
     static std::vector< intrusive_ptr< my_ws > >    schedulers_;
+    static std::unique_ptr< boost::fibers::detail::thread_barrier > barrier_;
 
     std::uint32_t                                           id_;
     std::uint32_t                                           thread_count_;
@@ -41,10 +44,11 @@ private:
     bool                                                    flag_{ false };
     bool                                                    suspend_;
 
-    static void init_( std::uint32_t, std::vector< intrusive_ptr< my_ws > > &);
-
 public:
 
+    // prepares for the next thread_count instances
+    static void init( std::uint32_t thread_count);
+
     my_ws( std::uint32_t, bool = false);
 
     my_ws( my_ws const&) = delete;
@@ -100,5 +104,6 @@ private:
 
     boost::fibers::condition_variable_any cond_stop;
     boost::fibers::mutex mtx_stop;
+    bool _stop = false;
 };
 
diff --git a/src/task.cpp b/src/task.cpp
index fb776a6..be1b978 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -22,22 +22,20 @@ namespace algo {
 
 std::atomic<std::uint32_t> my_ws::counter_{0};
 std::vector<intrusive_ptr<my_ws>> my_ws::schedulers_{};
+std::unique_ptr<boost::fibers::detail::thread_barrier> my_ws::barrier_{};
 
-void my_ws::init_(std::uint32_t thread_count,
-                  std::vector<intrusive_ptr<my_ws>> &schedulers) {
+void my_ws::init(std::uint32_t thread_count) {
     // resize array of schedulers to thread_count, initilized with nullptr
-    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers);
+    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers_);
+    counter_ = 0;
+    barrier_.reset(new boost::fibers::detail::thread_barrier{thread_count});
 }
 
 my_ws::my_ws(std::uint32_t thread_count, bool suspend)
     : id_{counter_++}, thread_count_{thread_count}, suspend_{suspend} {
-    static boost::fibers::detail::thread_barrier b{thread_count};
-    // initialize the array of schedulers
-    static std::once_flag flag;
-    std::call_once(flag, &my_ws::init_, thread_count_, std::ref(schedulers_));
     // register pointer of this scheduler
     schedulers_[id_] = this;
-    b.wait();
+    barrier_->wait();
 }
 
 void my_ws::awakened(context *ctx) noexcept {
@@ -113,6 +111,9 @@ void my_ws::notify() noexcept {
 }  // namespace boost
 
 void Scheduler::spawn() {
+    // every pool has its own participants
+    boost::fibers::algo::my_ws::init(_nworkers + 1);
+
     for (int i = 0; i < _nworkers; i++) {
         _workers[i]._id = i;
         _workers[i]._sched = this;
@@ -123,7 +124,7 @@ void Scheduler::spawn() {
                     boost::fibers::algo::my_ws>(this->_nworkers + 1);
                 {
                     std::unique_lock<boost::fibers::mutex> lk(this->mtx_stop);
-                    this->cond_stop.wait(lk);
+                    this->cond_stop.wait(lk, [this] { return this->_stop; });
                 }
             },
             i);
@@ -154,9 +155,15 @@ Scheduler::Scheduler(int n) : _nworkers(n) {
 }
 
 Scheduler::~Scheduler() {
+    {
+        // a worker that is not waiting yet must see it, too
+        std::unique_lock<boost::fibers::mutex> lk(mtx_stop);
+        _stop = true;
+    }
     cond_stop.notify_all();
 
     for (WorkerThread &w : _workers) {
         w._thread->join();
+        delete w._thread;
     }
 }
-- 
2.43.0


From ea548125b5f19a1dec9c804fc7384e8216487e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 12/44] fix: a fiber that continued on another thread used the
 first thread's cache

---
 src/dd.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index bcd86be..59fd519 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -51,6 +51,16 @@ vEdge vEdge::zero{.w = {0.0, 0.0}, .n = vNode::terminal};
 #if defined(isMT) && !defined(CACHE_GLOBAL)
 oneapi::tbb::enumerable_thread_specific<AddCache> _aCaches(NQUBITS);
 oneapi::tbb::enumerable_thread_specific<MulCache> _mCaches(NQUBITS);
+
+// A fiber that waited may continue on another thread, so the caches have to be
+// looked up again after every wait. Not inlined: the compiler takes the thread
+// for constant within one function.
+__attribute__((noinline)) static AddCache &localAddCache() {
+    return _aCaches.local();
+}
+__attribute__((noinline)) static MulCache &localMulCache() {
+    return _mCaches.local();
+}
 #else
 AddCache _aCache(NQUBITS);
 MulCache _mCache(NQUBITS);
@@ -1135,7 +1145,7 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     vEdge result;
 
 #if defined(isMT) && !defined(CACHE_GLOBAL)
-    AddCache &_aCache = _aCaches.local();
+    AddCache &_aCache = localAddCache();
 #endif
     result = _aCache.find(lhs, rhs);
     if (result.n != nullptr) {
@@ -1192,7 +1202,11 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 #endif
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    localAddCache().set(lhs, rhs, result);
+#else
     _aCache.set(lhs, rhs, result);
+#endif
 
     return result;
 }
@@ -1394,7 +1408,7 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
 #if defined(isMT) && !defined(CACHE_GLOBAL)
-    MulCache &_mCache = _mCaches.local();
+    MulCache &_mCache = localMulCache();
 #endif
     vEdge result;
 
@@ -1468,7 +1482,11 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    localMulCache().set(lhs.n, rhs.n, result);
+#else
     _mCache.set(lhs.n, rhs.n, result);
+#endif
     result.w = result.w * lhs.w * rhs.w;
     if (result.w.isApproximatelyZero()) {
         return vEdge::zero;
-- 
2.43.0


From 85e6967e6868832a812b6bacdc3725ad96d47168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 13/44] fix: building a gate over many qubits read past the
 list of its targets

---
 src/dd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 59fd519..8cea317 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -543,7 +543,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         [&targets](size_t a, size_t b) { return targets[a] < targets[b]; });
     std::vector<std::size_t> conversionMap;
     conversionMap.push_back(0);
-    for (int i = 0; i < rows; i++) {
+    for (int i = 0; i < targets.size(); i++) {
         size_t addition = 1 << target_compresed[i];
         int rep = conversionMap.size();
         for (int j = 0; j < rep; j++) {
-- 
2.43.0


From 341374285589811716884c1343c14d8d614bb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 14/44] fix: reading out a state vector leaked it

---
 qdd/bindings.cpp | 2 ++
 src/dd.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 0f8c115..3246fe8 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -53,6 +53,7 @@ std::vector<std::complex<double>> _getVector(vEdge &rootEdge) {
         std::complex<double> tmp(vec[i].r, vec[i].i);
         result.push_back(tmp);
     }
+    delete[] vec;
     return result;
 }
 
@@ -154,6 +155,7 @@ std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
     for (int i = 0; i < dim; i++) {
         result.push_back(vec[i]);
     }
+    delete[] vec;
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
diff --git a/src/dd.cpp b/src/dd.cpp
index 8cea317..d976c77 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1386,6 +1386,7 @@ VectorXcf vEdge::getEigenVector() {
     for (auto i = 0; i < dim; i++) {
         V(i) = std::complex<double>{v[i].r, v[i].i};
     }
+    delete[] v;
     return V;
 }
 
-- 
2.43.0


From 34cce2c6ccca6bfc626adfd482243990b3a9dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 15/44] fix: a condition on a register compares the bits at
 their place in that register

---
 qdd/qdd_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 269829b..8e10853 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -718,9 +718,9 @@ class QddBackend(BackendV1):
                         if val_cbit[self.get_cID(classical)] != str(int(val)):
                             skip = True
                     else:
-                        for clbit in classical:
-                            idx = self.get_cID(clbit)
-                            if val_cbit[idx] != str((val >> idx) & 1):
+                        # the value is compared with the bits of this register only
+                        for pos, clbit in enumerate(classical):
+                            if val_cbit[self.get_cID(clbit)] != str((val >> pos) & 1):
                                 skip = True
                                 break
                 if skip:
-- 
2.43.0


From 50b7ee99b53339d5c543162b4cedcc7401b25063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 16/44] fix: a conditional measurement makes the final state
 depend on the shot

---
 qdd/qdd_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 8e10853..18e9ae9 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1098,6 +1098,8 @@ class QddBackend(BackendV1):
                 # (Multi-target measurements (Measure([...], [...]) is decomposed to single-target measurement gates.)
                 clbit_final_values[cargs[0]] = qargs[0]
                 measured_qubits |= set(qargs)
+                if inst.condition is not None:
+                    stable_final_state = False
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From 6ef0cb4861c35e3b586d63e66de7e67dcb0cbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 17/44] fix: merging a circuit with a unitary gate passed qubit
 objects to the engine

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 18e9ae9..9dc69eb 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -481,7 +481,7 @@ class QddBackend(BackendV1):
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
-                    targets = qargs
+                    targets = [self.get_qID(q) for q in qargs]
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-- 
2.43.0


From 729ca719e84102c6990f93548f588fd4d0455498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 18/44] fix: Sampler failed when one parametrized circuit was
 given twice

---
 qdd/qdd_sampler.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 2a2ec1d..80d37ea 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -206,15 +206,10 @@ class _ExperimentManager:
         experiment_circuit: QuantumCircuit,
     ):
         """append experiments"""
-        if parameter_bind and key in self.keys:
-            key_index = self.keys.index(key)
-            for k, vs in self.parameter_binds[key_index].items():
-                vs.append(parameter_bind[k])
-            self._input_indices[key_index].append(self._num_experiment)
-        else:
-            self.experiment_circuits.append(experiment_circuit)
-            self.keys.append(key)
-            self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
-            self._input_indices.append([self._num_experiment])
+        # the backend takes one set of parameter values per circuit
+        self.experiment_circuits.append(experiment_circuit)
+        self.keys.append(key)
+        self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
+        self._input_indices.append([self._num_experiment])
 
         self._num_experiment += 1
-- 
2.43.0


From 1c82417f4b01367850836636b269dd208f0306f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 19/44] fix: circuits without a set of parameters were dropped
 silently

---
 qdd/qdd_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 9dc69eb..2633269 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -342,6 +342,11 @@ class QddBackend(BackendV1):
         if ("parameter_binds" in run_options) and (
             run_options["parameter_binds"] is not None
         ):
+            if len(run_options["parameter_binds"]) != len(qiskit_circs):
+                raise RuntimeError(
+                    f"{len(run_options['parameter_binds'])} sets of parameters are specified"
+                    f" for {len(qiskit_circs)} circuits."
+                )
             param_bound_qiskit_circs = []
             for qiskit_circ, binds in zip(qiskit_circs, run_options["parameter_binds"]):
                 param_bound_qiskit_circs.append(qiskit_circ.assign_parameters(binds))
-- 
2.43.0


From 61824eb6fd1ba562a6486a048df880bd0c86e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 20/44] fix: exact probabilities were those of the qubits, not
 of the measured classical bits

---
 qdd/qdd_backend.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 2633269..4f2f796 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -26,6 +26,7 @@ from .circuit_property import CircuitProperty
 
 from qdd import pyQDD
 import math
+import numpy as np
 
 _qiskit_gates_1q_0param: Dict = {
     qiskit_gates.HGate: "H",
@@ -1015,6 +1016,10 @@ class QddBackend(BackendV1):
                     if use_mpi == False
                     else pyQDD.probabilitiesMPI(current)
                 )
+                if circ_prop.clbit_final_values:
+                    prob = self._classical_probabilities(
+                        prob, circ_prop, map_after_swap, n_cbit
+                    )
             else:
                 prob = [1] * (2**n_cbit)
                 for i in range(2**n_cbit):
@@ -1024,7 +1029,7 @@ class QddBackend(BackendV1):
                         else:
                             prob[i] *= prob_cbit[j]
             probabilities = {}
-            for i, p in enumerate(prob):
+            for i, p in prob.items() if isinstance(prob, dict) else enumerate(prob):
                 probabilities[i] = p
             result_data: Dict[str, Any] = {"probabilities": probabilities}
             if self._save_SV:
@@ -1047,6 +1052,17 @@ class QddBackend(BackendV1):
         #        print("nQubit", n_qubit, "nGates", len(circ.data), "nNodes", pyQDD.get_nNodes(current))
         return result
 
+    def _classical_probabilities(self, prob, circ_prop, qubit_position, n_cbit):
+        """Turns the probabilities of the qubits' basis states into those of the classical bits' values."""
+        prob = np.asarray(prob)
+        states = np.arange(len(prob))
+        values = np.zeros(len(prob), dtype=np.int64 if n_cbit < 63 else object)
+        for cbit, qubit in circ_prop.clbit_final_values.items():
+            bit = (states >> qubit_position[self.get_qID(qubit)]) & 1
+            values = values | (bit.astype(values.dtype) << self.get_cID(cbit))
+        keys, index = np.unique(values, return_inverse=True)
+        return dict(zip(keys.tolist(), np.bincount(index, weights=prob).tolist()))
+
     @staticmethod
     def _validate_and_get_circuit_properties(
         qiskit_circs: List[QiskitCircuit], require_measurement=True
-- 
2.43.0


From ae3c5d92e71092233861552a244f29eeffbfb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 21/44] fix: Estimator(approximation=True) needed run_options

---
 qdd/qdd_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 936c456..a856b1b 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -113,7 +113,7 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and "shots" in run_options:
+        if self._approximation and run_options and "shots" in run_options:
             self._approximation_shots = run_options["shots"]
         else:
             self._approximation_shots = None
-- 
2.43.0


From 0ee0f462025894927c39be4e6bb3faf6fd226835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 22/44] fix: Estimator failed on observables with an identity
 term of their own

---
 qdd/qdd_estimator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index a856b1b..92f6e26 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -214,23 +214,26 @@ class Estimator(BaseEstimator):
                 pauli_list = sum(
                     [self._observables[obs_ind].paulis for obs_ind in obs_indices]
                 ).unique()
-                if self._abelian_grouping:
+                # identities need no measurement
+                pauli_list = pauli_list[(pauli_list.x | pauli_list.z).any(axis=1)]
+                if len(pauli_list) == 0:
+                    pauli_lists = []
+                elif self._abelian_grouping:
                     pauli_lists = pauli_list.group_commuting(qubit_wise=True)
                 else:
                     pauli_lists = [PauliList(pauli) for pauli in pauli_list]
                 obs_map = defaultdict(list)
                 for obs_ind in obs_indices:
                     for pauli in self._observables[obs_ind].paulis:
+                        if not pauli.x.any() and not pauli.z.any():
+                            obs_map[obs_ind].append(None)
+                            continue
                         for basis_ind, pauli_list in enumerate(pauli_lists):
                             if pauli in pauli_list:
                                 obs_map[obs_ind].append(basis_ind)
                                 break
                 obs_maps[circ_ind] = obs_map
                 bases = [_paulis2basis(pauli_list) for pauli_list in pauli_lists]
-                if (
-                    len(bases) == 1 and not bases[0].x.any() and not bases[0].z.any()
-                ):  # identity
-                    break
                 meas_circuits = [
                     self._create_meas_circuit(basis, circ_ind) for basis in bases
                 ]
@@ -301,6 +304,8 @@ class Estimator(BaseEstimator):
             self._validate_parameter_length(param_val, circ_ind)
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
+                if basis_ind is None:  # identity
+                    continue
                 if (
                     circ_ind in exp_map
                     and basis_ind in exp_map[circ_ind]
-- 
2.43.0


From 0bf5315abfa7023c6698cc11028a591c949ac2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 23/44] fix: Estimator mixed up parameter values when
 measurement bases came in another order

---
 qdd/qdd_estimator.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 92f6e26..93ec1ab 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -321,20 +321,14 @@ class Estimator(BaseEstimator):
 
     @staticmethod
     def _flatten(experiments_dict, exp_map):
-        experiments_unsorted = {}
+        # the order is that of exp_map, as in _calculate_result_index
         experiments_list = []
         parameter_binds = []
-        for circ_ind in experiments_dict:
-            indices = []
-            for i, (parameters, param_vals) in exp_map[circ_ind].items():
+        for circ_ind, basis_map in exp_map.items():
+            for basis_ind, (parameters, param_vals) in basis_map.items():
                 for param_val in param_vals:
-                    experiments_unsorted[i] = experiments_dict[circ_ind][i]
-                    indices.append(i)
-                    parameter_binds.extend(
-                        [{param: param_val[i] for i, param in enumerate(parameters)}]
-                    )
-            for i in sorted(indices):
-                experiments_list.append(experiments_unsorted[i])
+                    experiments_list.append(experiments_dict[circ_ind][basis_ind])
+                    parameter_binds.append(dict(zip(parameters, param_val)))
 
         return experiments_list, parameter_binds
 
@@ -385,7 +379,7 @@ class Estimator(BaseEstimator):
 
         result_index = 0
         for _circ_ind, basis_map in exp_map.items():
-            for _basis_ind, (_, (_, param_vals)) in enumerate(basis_map.items()):
+            for _basis_ind, (_, param_vals) in basis_map.items():
                 if circ_ind == _circ_ind and basis_ind == _basis_ind:
                     result_index += param_vals.index(param_val)
                     return result_index
-- 
2.43.0


From db3c36c44a95b8ef5152701d481b30df4f573454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 24/44] fix: the worker pool of a failed job stayed alive

---
 qdd/qdd_backend.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 4f2f796..5a7810e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -382,10 +382,14 @@ class QddBackend(BackendV1):
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
 
-        results = [
-            self._evaluate_circuit(circ, circ_prop, experiments.options)
-            for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-        ]
+        try:
+            results = [
+                self._evaluate_circuit(circ, circ_prop, experiments.options)
+                for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
+            ]
+        finally:
+            if experiments.options["n_threads"] > 1:
+                pyQDD.terminateMT()
 
         result = Result.from_dict(
             {
@@ -398,9 +402,6 @@ class QddBackend(BackendV1):
             }
         )
 
-        if experiments.options["n_threads"] > 1:
-            pyQDD.terminateMT()
-
         return result
 
     def _create_qubitmap(self, circ: QiskitCircuit):
-- 
2.43.0


From b0f95f5c235e2aab9fb747b4b58ed7763d0978ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 25/44] fix: the option seed_simulator had no effect

---
 qdd/bindings.cpp   | 15 +++++++++++++++
 qdd/qdd_backend.py | 13 +++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 3246fe8..cedf693 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -29,6 +29,11 @@ std::map<std::string, GateMatrix> gateMap{
 std::random_device rd;
 std::mt19937_64 mt(rd());
 
+// Makes the following measurements reproducible.
+void setSeed(std::uint64_t seed);
+// Undoes setSeed.
+void unsetSeed() { mt.seed(rd()); }
+
 std::pair<vEdge, std::string> _measureAll(vEdge &rootEdge, bool collapse) {
     std::string result = measureAll(rootEdge, collapse, mt);
     return std::pair<vEdge, std::string>(rootEdge, result);
@@ -105,6 +110,13 @@ vEdge applyGlobal(vEdge org, double angle){
 
 boost::mpi::communicator _world;
 
+void setSeed(std::uint64_t seed) {
+    // each rank draws from a stream of its own
+    std::seed_seq seq{(std::uint32_t)seed, (std::uint32_t)(seed >> 32),
+                      (std::uint32_t)_world.rank()};
+    mt.seed(seq);
+}
+
 std::vector<double> _probabilitiesMPI(const vEdge &v) {
     return probabilitiesMPI(_world, v);
 }
@@ -169,6 +181,8 @@ std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
     }
     return final_result;
 }
+#else
+void setSeed(std::uint64_t seed) { mt.seed(seed); }
 #endif
 
 #ifdef isMT
@@ -275,6 +289,7 @@ PYBIND11_MODULE(pyQDD, m) {
     m.def("getVector", _getVector);
     m.def("probabilities", _probabilities);
     m.def("measureOne", _measureOne);
+    m.def("setSeed", setSeed).def("unsetSeed", unsetSeed);
 
     // Others
     m.def("genDot", py::overload_cast<vEdge &>(&genDot))
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 5a7810e..97ad6c8 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -378,16 +378,21 @@ class QddBackend(BackendV1):
 
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
-        if experiments.options["n_threads"] > 1:
-            nt = pyQDD.initMT(experiments.options["n_threads"])
-            print(nt, "threads")
-
+        seed = experiments.options["seed_simulator"]
         try:
+            if experiments.options["n_threads"] > 1:
+                nt = pyQDD.initMT(experiments.options["n_threads"])
+                print(nt, "threads")
+            if seed is not None:
+                pyQDD.setSeed(int(seed) & 0xFFFFFFFFFFFFFFFF)
+
             results = [
                 self._evaluate_circuit(circ, circ_prop, experiments.options)
                 for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
             ]
         finally:
+            if seed is not None:
+                pyQDD.unsetSeed()
             if experiments.options["n_threads"] > 1:
                 pyQDD.terminateMT()
 
-- 
2.43.0


From 12907ce7702274b9028217ff0aaca0de6a3aea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 26/44] fix: controls on |0> were taken for controls on |1>

---
 qdd/qdd_backend.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 97ad6c8..77aad3f 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -409,6 +409,19 @@ class QddBackend(BackendV1):
 
         return result
 
+    @staticmethod
+    def _check_supported(inst):
+        # only controls on |1> are evaluated; the transpiler decomposes the others
+        if getattr(inst, "ctrl_state", None) not in (
+            None,
+            2 ** getattr(inst, "num_ctrl_qubits", 0) - 1,
+        ):
+            raise RuntimeError(
+                f"Unsupported gate or instruction:"
+                f" type={inst.base_class.__name__}, name={inst.name}."
+                f" It needs to transpile the circuit before evaluating it."
+            )
+
     def _create_qubitmap(self, circ: QiskitCircuit):
         qubits = circ.qubits
         mapdata = {}
@@ -451,6 +464,7 @@ class QddBackend(BackendV1):
             assert len(cargs) == 0
 
             if qiskit_gate_type in _supported_qiskit_gates:
+                self._check_supported(i)
                 if qiskit_gate_type in _qiskit_gates_1q:
                     controls = []
                     for j in range(len(qargs) - 1):
@@ -771,6 +785,7 @@ class QddBackend(BackendV1):
                     )
 
                 if qiskit_gate_type in _supported_qiskit_gates:
+                    self._check_supported(i)
                     if qiskit_gate_type in _qiskit_gates_1q:
                         controls = []
                         for j in range(len(qargs) - 1):
-- 
2.43.0


From bcb19799d9dfea33c4cb64b249667ec2170602c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 27/44] fix: gathering a distributed state vector dropped the
 zeros of empty ranks

---
 qdd/bindings.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index cedf693..36b9125 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -161,19 +161,27 @@ void dump_mpi() {
 }
 
 std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
-    size_t dim;
-    std_complex *vec = edge.getVector(&dim);
     std::vector<std_complex> result;
-    for (int i = 0; i < dim; i++) {
-        result.push_back(vec[i]);
+    if (!edge.isTerminal()) { // otherwise this rank's part is all zero
+        size_t dim;
+        std_complex *vec = edge.getVector(&dim);
+        for (int i = 0; i < dim; i++) {
+            result.push_back(vec[i]);
+        }
+        delete[] vec;
     }
-    delete[] vec;
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
 
+    size_t local_dim = 0;
+    for (const auto &r : all_results) {
+        local_dim = std::max(local_dim, r.size());
+    }
+
     std::vector<std::complex<double>> final_result;
     for (int i = 0; i < all_results.size(); i++) {
+        all_results[i].resize(local_dim, {0.0, 0.0});
         for (int j = 0; j < all_results[i].size(); j++) {
             final_result.push_back(
                 std::complex(all_results[i][j].r, all_results[i][j].i));
-- 
2.43.0


From 5fe88f3a61d22498cb3639684ebd718ad0e42c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 28/44] fix: what the ranks were sent of a circuit was
 incomplete

Circuits with a QDDGate could not be sent at all (the other ranks waited for
ever), the global phase was lost, and the classical bits the circuit's
properties refer to were not those of the circuit unless they were in a
register.
---
 qdd/qdd_backend.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 77aad3f..fd9772f 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -693,8 +693,13 @@ class QddBackend(BackendV1):
         if use_mpi:
             from mpi4py import MPI
 
-            circ = MPI.COMM_WORLD.bcast(circ, root=0)
-            circ_prop = MPI.COMM_WORLD.bcast(circ_prop, root=0)
+            # A QDDGate holds a diagram of this process, which cannot be sent; every rank uses its own.
+            if not any(i.base_class == QDDGate for i, _, _ in circ.data):
+                # Sent together because circ_prop refers to the bits of circ.  Pickling a circuit drops its global phase.
+                circ, circ_prop, global_phase = MPI.COMM_WORLD.bcast(
+                    (circ, circ_prop, circ.global_phase), root=0
+                )
+                circ.global_phase = global_phase
             if pow(2, circ.num_qubits) <= MPI.COMM_WORLD.Get_size():
                 print("ERROR: Too many nodes for MPI")
                 assert pow(2, circ.num_qubits) > MPI.COMM_WORLD.Get_size()
-- 
2.43.0


From fd9f3a3aeadad9921210fe18419ec9ca5efa6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 29/44] fix: a grown work-stealing queue published its array
 before the array's contents

---
 include/wsq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wsq.hpp b/include/wsq.hpp
index 6b7d101..96e9fd2 100644
--- a/include/wsq.hpp
+++ b/include/wsq.hpp
@@ -180,7 +180,7 @@ void WorkStealingQueue<T>::push(O&& o) {
     Array* tmp = a->resize(b, t);
     _garbage.push_back(a);
     std::swap(a, tmp);
-    _array.store(a, std::memory_order_relaxed);
+    _array.store(a, std::memory_order_release);
   }
 
   a->push(b, std::forward<O>(o));
-- 
2.43.0


From e49c0631dff805eb1153d3c90de4610b5e83ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 30/44] fix: a reader's entry into an epoch could become
 visible after its first reads

---
 src/epoch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index fa7690e..d628f5f 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -59,6 +59,8 @@ void Epoch::enterEpoch(ThreadInfo& epochInfo) {
     unsigned long curEpoch = currentEpoch.load(std::memory_order_relaxed);
     epochInfo.getDeletionList().localEpoch.store(curEpoch,
                                                  std::memory_order_release);
+    // the announcement must be visible before anything is read in the epoch
+    std::atomic_thread_fence(std::memory_order_seq_cst);
 }
 
 void Epoch::markNodeForDeletion(void* n, ThreadInfo& epochInfo) {
@@ -77,6 +79,7 @@ void Epoch::exitEpochAndCleanup(ThreadInfo& epochInfo) {
             return;
         }
         deletionList.localEpoch.store(std::numeric_limits<uint64_t>::max());
+        std::atomic_thread_fence(std::memory_order_seq_cst);
 
         uint64_t oldestEpoch = std::numeric_limits<uint64_t>::max();
         for (auto& epoch : deletionLists) {
-- 
2.43.0


From 0623a38f3cf985f47d126eb4939c339be7519769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 31/44] fix: registering a thread while another one reclaims
 was a race on the list of threads

---
 include/epoch.h |  8 +++++++-
 src/epoch.cpp   | 27 +++++++++++++++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/epoch.h b/include/epoch.h
index 4001946..e005abc 100644
--- a/include/epoch.h
+++ b/include/epoch.h
@@ -2,6 +2,8 @@
 
 #include <atomic>
 #include <array>
+#include <limits>
+#include <mutex>
 #include <tbb/enumerable_thread_specific.h>
 #include <tbb/combinable.h>
 
@@ -19,7 +21,7 @@ struct DeletionList{
         DeleteEntry* freeLabelDeletes{nullptr};
         std::size_t deletionListCount{0};
 
-        std::atomic<uint64_t> localEpoch;
+        std::atomic<uint64_t> localEpoch{std::numeric_limits<uint64_t>::max()};
         std::size_t thresholdCounter{0};
 
         ~DeletionList();
@@ -62,6 +64,10 @@ class Epoch {
     std::atomic<uint64_t> currentEpoch{0}; //global epoch
 
     tbb::enumerable_thread_specific<DeletionList> deletionLists;
+    std::mutex registration; // deletionLists must not grow while it is iterated
+
+    DeletionList &localDeletionList();
+    uint64_t oldestLocalEpoch();
 
     size_t startGCThreshhold;
 
diff --git a/src/epoch.cpp b/src/epoch.cpp
index d628f5f..0c79ba0 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -55,6 +55,23 @@ void DeletionList::add(void* n, uint64_t globalEpoch) {
 
 DeleteEntry* DeletionList::head() { return headDeletionList; }
 
+DeletionList& Epoch::localDeletionList() {
+    std::lock_guard<std::mutex> lock(registration);
+    return deletionLists.local();
+}
+
+uint64_t Epoch::oldestLocalEpoch() {
+    std::lock_guard<std::mutex> lock(registration);
+    uint64_t oldestEpoch = std::numeric_limits<uint64_t>::max();
+    for (auto& epoch : deletionLists) {
+        auto e = epoch.localEpoch.load();
+        if (e < oldestEpoch) {
+            oldestEpoch = e;
+        }
+    }
+    return oldestEpoch;
+}
+
 void Epoch::enterEpoch(ThreadInfo& epochInfo) {
     unsigned long curEpoch = currentEpoch.load(std::memory_order_relaxed);
     epochInfo.getDeletionList().localEpoch.store(curEpoch,
@@ -81,13 +98,7 @@ void Epoch::exitEpochAndCleanup(ThreadInfo& epochInfo) {
         deletionList.localEpoch.store(std::numeric_limits<uint64_t>::max());
         std::atomic_thread_fence(std::memory_order_seq_cst);
 
-        uint64_t oldestEpoch = std::numeric_limits<uint64_t>::max();
-        for (auto& epoch : deletionLists) {
-            auto e = epoch.localEpoch.load();
-            if (e < oldestEpoch) {
-                oldestEpoch = e;
-            }
-        }
+        uint64_t oldestEpoch = oldestLocalEpoch();
 
         DeleteEntry *cur = deletionList.head(), *next, *prev = nullptr;
         while (cur != nullptr) {
@@ -137,7 +148,7 @@ void Epoch::showDeleteRatio() {
 }
 
 ThreadInfo::ThreadInfo(Epoch& epoch)
-    : epoch(epoch), deletionList(epoch.deletionLists.local()) {}
+    : epoch(epoch), deletionList(epoch.localDeletionList()) {}
 
 DeletionList& ThreadInfo::getDeletionList() const { return deletionList; }
 
-- 
2.43.0


From db3a5d4b6ba57810e6617b60892c07a486423717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:17 +0000
Subject: [PATCH 32/44] fix: wide superpositions collapsed to zero once their
 root weight fell below the tolerance

---
 src/dd.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index d976c77..691f874 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1216,7 +1216,21 @@ vEdge vv_add(const vEdge &lhs, const vEdge &rhs) {
         return {lhs.w + rhs.w, vNode::terminal};
     }
 
-    return vv_add2(lhs, rhs, rhs.getVar());
+    // The tolerances are absolute, so states whose root weight is small (wide
+    // superpositions) are added at unit scale; a power of two does not round.
+    const double big = std::max({std::abs(lhs.w.r), std::abs(lhs.w.i),
+                                 std::abs(rhs.w.r), std::abs(rhs.w.i)});
+    if (!(big > 0 && big < 0.5)) {
+        return vv_add2(lhs, rhs, rhs.getVar());
+    }
+    const int exponent = std::ilogb(big);
+    const auto scaled = [](vEdge e, int exp) {
+        e.w = {std::ldexp(e.w.r, exp), std::ldexp(e.w.i, exp)};
+        return e;
+    };
+    return scaled(vv_add2(scaled(lhs, -exponent), scaled(rhs, -exponent),
+                          rhs.getVar()),
+                  exponent);
 }
 
 vEdge vv_kronecker2(const vEdge &lhs, const vEdge &rhs) {
@@ -1503,7 +1517,18 @@ vEdge mv_multiply(mEdge lhs, vEdge rhs) {
         return {lhs.w * rhs.w, vNode::terminal};
     }
     LIMIT = rhs.getVar() - MINUS;
+    // The root weight of a wide superposition may be smaller than the tolerance:
+    // it takes no part in the recursion.
+    const std_complex weight = rhs.w;
+    if (weight.r == 0 && weight.i == 0) {
+        return vEdge::zero;
+    }
+    rhs.w = {1.0, 0.0};
     vEdge v = mv_multiply2(lhs, rhs, rhs.getVar());
+    v.w = v.w * weight;
+    if (v.w.isApproximatelyOne()) {
+        v.w = {1.0, 0.0};
+    }
     //_mCache.hitRatio();
     //_aCache.hitRatio();
     // vUnique.dump();
-- 
2.43.0


From e9886dd664a686ad2c6ba1c91a52ee2cacfb0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 33/44] fix: dynamic circuits with a NumPy integer as shots ran
 only one shot

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index fd9772f..c55a6bb 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -726,7 +726,7 @@ class QddBackend(BackendV1):
                 )
 
         reps = 1
-        if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
+        if circ_prop.stable_final_state == False and options["shots"] is not None:
             reps = options["shots"]
 
         prob_cbit = [0] * n_cbit
-- 
2.43.0


From 55af6ff8514bfbc4ea46805a5d5d9d82a2642bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 34/44] fix: a QDDGate ignored the order of the qubits it was
 appended to

---
 qdd/qdd_backend.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index c55a6bb..1ee453b 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -511,7 +511,9 @@ class QddBackend(BackendV1):
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-                    gate = i.params[0]
+                    gate = self._place_qdd_gate(
+                        n_qubit, i.params[0], [self.get_qID(q) for q in qargs]
+                    )
                     current = pyQDD.mm_multiply(gate, current)
                 else:
                     raise RuntimeError(
@@ -529,6 +531,18 @@ class QddBackend(BackendV1):
         current = pyQDD.applyGlobal(current, circ.global_phase)
         return current
 
+    @staticmethod
+    def _place_qdd_gate(n_qubit, gate, positions):
+        """Moves a QDDGate, whose diagram acts on the lowest qubits in their order, to the given positions."""
+        current = list(range(n_qubit))
+        for i, position in enumerate(positions):
+            if current[i] != position:
+                swap = pyQDD.SWAP(n_qubit, current[i], position)
+                gate = pyQDD.mm_multiply(swap, pyQDD.mm_multiply(gate, swap))
+                current[current.index(position)] = current[i]
+                current[i] = position
+        return gate
+
     def get_initial_qmap(self, num_qubits, size_global):
         global_set = set(range(num_qubits - size_global, num_qubits))
         local_set = set(range(num_qubits - size_global))
@@ -910,11 +924,13 @@ class QddBackend(BackendV1):
                             )
                         )
                     elif qiskit_gate_type in _qdd_gate:
-                        gate = i.params[0]
                         if use_mpi and use_auto_swap:
                             current, map_after_swap = self.restore_swap(
                                MPI, current, circ, map_after_swap, use_bcast
                             )
+                        gate = self._place_qdd_gate(
+                            n_qubit, i.params[0], [map_after_swap[self.get_qID(q)] for q in qargs]
+                        )
                         current = (pyQDD.mv_multiply(gate, current) if use_mpi == False
                              else (pyQDD.mv_multiply_MPI(gate, current, n_qubit, max([map_after_swap[self.get_qID(i)] for i in qargs]),) if use_bcast == False
                              else pyQDD.mv_multiply_MPI_bcast(gate, current, n_qubit, max([map_after_swap[self.get_qID(i)] for i in qargs]),)))
-- 
2.43.0


From 2c44b0b5bf374884ceed0bff8ce0ca50d9e93edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:00 +0000
Subject: [PATCH 35/44] fix: a QDDGate was destroyed by the garbage collection
 of a later merge_circuit

---
 qdd/bindings.cpp   | 12 ++++++++++++
 qdd/qdd_backend.py |  5 +++--
 qdd/qdd_gate.py    |  6 ++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 36b9125..629ec44 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -91,6 +91,17 @@ mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix m, Qubit target0,
     return makeTwoQubitGate(q, m, target0, target1, c);
 }
 
+// the other diagrams stay valid, too
+mEdge _gc_mat_keeping(mEdge mat, bool force, std::vector<mEdge *> others) {
+    std::vector<mEdge> mats{mat};
+    for (mEdge *other : others)
+        mats.push_back(*other);
+    mats = gc_mat(mats, force);
+    for (std::size_t i = 0; i < others.size(); i++)
+        *others[i] = mats[i + 1];
+    return mats[0];
+}
+
 mEdge applyGlobal(mEdge org, double angle){
     mEdge result = org;
     Complex e = {std::cos(angle), std::sin(angle)};
@@ -240,6 +251,7 @@ PYBIND11_MODULE(pyQDD, m) {
         .def("gc", py::overload_cast<vEdge, bool>(&gc))
         .def("gc_mat", py::overload_cast<std::vector<mEdge>, bool>(&gc_mat))
         .def("gc_mat", py::overload_cast<mEdge, bool>(&gc_mat))
+        .def("gc_mat", &_gc_mat_keeping)
         .def("set_gc_thr", set_gc_thr);
     m.def("applyGlobal", py::overload_cast<mEdge, double>(&applyGlobal))
      .def("applyGlobal", py::overload_cast<vEdge, double>(&applyGlobal));
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1ee453b..a1ad034 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -21,7 +21,7 @@ from qiskit.circuit import library
 from qdd import __version__
 from qdd.qdd_failed_job import QddFailedJob
 from qdd.qdd_job import QddJob
-from qdd.qdd_gate import QDDGate
+from qdd.qdd_gate import QDDGate, live_diagrams
 from .circuit_property import CircuitProperty
 
 from qdd import pyQDD
@@ -526,9 +526,10 @@ class QddBackend(BackendV1):
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
                 print(count,"/",len(circ.data))
             if count%gc_freq==0:
-                current = pyQDD.gc_mat(current, False)
+                current = pyQDD.gc_mat(current, False, list(live_diagrams))
             # pyQDD.clear_cache(False)
         current = pyQDD.applyGlobal(current, circ.global_phase)
+        live_diagrams.add(current)
         return current
 
     @staticmethod
diff --git a/qdd/qdd_gate.py b/qdd/qdd_gate.py
index 5ffd456..e258f84 100644
--- a/qdd/qdd_gate.py
+++ b/qdd/qdd_gate.py
@@ -1,12 +1,18 @@
+import weakref
+
 from qdd import pyQDD
 from qiskit.circuit.gate import Gate
 from qiskit.circuit.exceptions import CircuitError
 
+# diagrams that must survive a garbage collection of matrices
+live_diagrams = weakref.WeakSet()
+
 
 class QDDGate(Gate):
 
     def __init__(self, nQubits: int, medge, basis: str = "QDD"):
         super().__init__("qdd", nQubits, [medge])
+        live_diagrams.add(medge)
 
     def validate_parameter(self, parameter):
         if not isinstance(parameter, pyQDD.mEdge):
-- 
2.43.0


From 68f92da8578eee2e97a6078cbdd392dd49189a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 36/44] fix: Sampler and Estimator took circuits that differ in
 their conditions for one another

---
 qdd/circuit_property.py | 16 +++++++++++++++-
 qdd/qdd_estimator.py    |  7 ++++---
 qdd/qdd_sampler.py      |  6 +++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/qdd/circuit_property.py b/qdd/circuit_property.py
index 82c151e..7882f5f 100644
--- a/qdd/circuit_property.py
+++ b/qdd/circuit_property.py
@@ -1,7 +1,8 @@
 import dataclasses
 from typing import Dict
 
-from qiskit.circuit import Clbit, Qubit
+from qiskit.circuit import Clbit, QuantumCircuit, Qubit
+from qiskit.primitives.utils import _circuit_key
 
 
 @dataclasses.dataclass
@@ -18,3 +19,16 @@ class CircuitProperty:
 
     stable_final_state: bool
     clbit_final_values: Dict[Clbit, Qubit]
+
+
+def circuit_key(circuit: QuantumCircuit) -> tuple:
+    """Identifies a circuit by Qiskit's key, and by the conditions of its instructions, which that leaves out."""
+    conditions = []
+    for position, instruction in enumerate(circuit.data):
+        condition = getattr(instruction.operation, "condition", None)
+        if condition is not None:
+            target, value = condition
+            bits = [target] if isinstance(target, Clbit) else target
+            indices = tuple(circuit.find_bit(bit).index for bit in bits)
+            conditions.append((position, indices, int(value)))
+    return _circuit_key(circuit), tuple(conditions)
diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 93ec1ab..2e33eb3 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -28,7 +28,7 @@ from qiskit.circuit import ParameterExpression, QuantumCircuit
 from qiskit.compiler import transpile
 from qiskit.primitives import BaseEstimator, EstimatorResult
 from qiskit.primitives.primitive_job import PrimitiveJob
-from qiskit.primitives.utils import _circuit_key, _observable_key, init_observable
+from qiskit.primitives.utils import _observable_key, init_observable
 from qiskit.providers import Options, convert_to_target
 from qiskit.quantum_info import Pauli, PauliList
 from qiskit.quantum_info.operators.base_operator import BaseOperator
@@ -44,6 +44,7 @@ from qiskit.transpiler.passes import (
 )
 
 from qdd import QddProvider
+from qdd.circuit_property import circuit_key
 
 
 class Estimator(BaseEstimator):
@@ -147,12 +148,12 @@ class Estimator(BaseEstimator):
     ) -> PrimitiveJob:
         circuit_indices: list = []
         for circuit in circuits:
-            index = self._circuit_ids.get(_circuit_key(circuit))
+            index = self._circuit_ids.get(circuit_key(circuit))
             if index is not None:
                 circuit_indices.append(index)
             else:
                 circuit_indices.append(len(self._circuits))
-                self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
+                self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
                 self._circuits.append(circuit)
                 self._parameters.append(circuit.parameters)
         observable_indices: list = []
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 80d37ea..d6ea7e5 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -30,6 +30,7 @@ from qiskit.primitives.utils import final_measurement_mapping, init_circuit
 from qiskit.result import QuasiDistribution
 
 from qdd import QddProvider
+from qdd.circuit_property import circuit_key
 
 
 class Sampler(BaseSampler):
@@ -151,16 +152,15 @@ class Sampler(BaseSampler):
         from typing import List
 
         from qiskit.primitives.primitive_job import PrimitiveJob
-        from qiskit.primitives.utils import _circuit_key
 
         circuit_indices: List[int] = []
         for circuit in circuits:
-            index = self._circuit_ids.get(_circuit_key(circuit))
+            index = self._circuit_ids.get(circuit_key(circuit))
             if index is not None:
                 circuit_indices.append(index)
             else:
                 circuit_indices.append(len(self._circuits))
-                self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
+                self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
                 self._circuits.append(circuit)
                 self._parameters.append(circuit.parameters)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
-- 
2.43.0


From 571ec07c6a2f0555df20c553d129b1ec2371d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 37/44] fix: jobs in several threads used the engine at the
 same time

---
 qdd/qdd_backend.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index a1ad034..26bdcc8 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -2,6 +2,7 @@ from typing import Any, Dict, List, Union
 import traceback
 import os
 import sys
+import threading
 import uuid
 import dataclasses
 from collections import Counter
@@ -119,6 +120,10 @@ _supported_qiskit_gates: Dict = {
 }
 
 
+# There is one engine in the process, and jobs may run in several threads.
+_engine_lock = threading.RLock()
+
+
 @dataclasses.dataclass
 class QddExperiments:
     circs: List[QiskitCircuit]
@@ -378,6 +383,10 @@ class QddBackend(BackendV1):
 
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
+        with _engine_lock:
+            return self._run_experiment_locked(experiments, job_id)
+
+    def _run_experiment_locked(self, experiments, job_id) -> Result:
         seed = experiments.options["seed_simulator"]
         try:
             if experiments.options["n_threads"] > 1:
@@ -447,6 +456,10 @@ class QddBackend(BackendV1):
         return self.cbitmap[cbit]
 
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
+        with _engine_lock:
+            return self._merge_circuit_locked(circ, gc_freq)
+
+    def _merge_circuit_locked(self, circ: QiskitCircuit, gc_freq):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
         self._create_qubitmap(circ)
-- 
2.43.0


From c50e98ec71f99aa08504c75a98def15c131f2d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 38/44] fix: a second job of an Estimator could miss the layout
 of a circuit

---
 qdd/qdd_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 2e33eb3..8489c95 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -465,8 +465,8 @@ class Estimator(BaseEstimator):
                 bit_map = {bit: index for index, bit in enumerate(circuit.qubits)}
                 layout = [bit_map[qr[0]] for _, qr, _ in circuit[-num_qubits:]]
                 circuit.remove_final_measurements()
-                self._transpiled_circuits[i] = circuit
                 self._layouts[i] = layout
+                self._transpiled_circuits[i] = circuit
 
 
 class _PostProcessing:
-- 
2.43.0


From 12d060b7d3fca94f1066d945cee4de4e8022ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 39/44] fix: Sampler and Estimator were affected by later
 changes of the caller's circuit

---
 qdd/qdd_estimator.py | 2 +-
 qdd/qdd_sampler.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 8489c95..1cd91d2 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -154,7 +154,7 @@ class Estimator(BaseEstimator):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         observable_indices: list = []
         for observable in observables:
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index d6ea7e5..3b30ba9 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -161,7 +161,7 @@ class Sampler(BaseSampler):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
         job._submit()
-- 
2.43.0


From d5f87fb0c31fa8f25a3cbcb3b8a6b624160dcdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 40/44] fix: calls of run() in several threads mixed up a
 Sampler's or Estimator's circuits

---
 qdd/qdd_estimator.py | 45 ++++++++++++++++++++++++--------------------
 qdd/qdd_sampler.py   | 23 +++++++++++++---------
 2 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 1cd91d2..af30d30 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -19,6 +19,7 @@ Estimator class.
 
 from __future__ import annotations
 
+import threading
 from collections import defaultdict
 from collections.abc import Sequence
 from warnings import warn
@@ -46,6 +47,9 @@ from qiskit.transpiler.passes import (
 from qdd import QddProvider
 from qdd.circuit_property import circuit_key
 
+# run() may be called in several threads
+_registration_lock = threading.Lock()
+
 
 class Estimator(BaseEstimator):
     """
@@ -147,27 +151,28 @@ class Estimator(BaseEstimator):
         **run_options,
     ) -> PrimitiveJob:
         circuit_indices: list = []
-        for circuit in circuits:
-            index = self._circuit_ids.get(circuit_key(circuit))
-            if index is not None:
-                circuit_indices.append(index)
-            else:
-                circuit_indices.append(len(self._circuits))
-                self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit.copy())
-                self._parameters.append(circuit.parameters)
         observable_indices: list = []
-        for observable in observables:
-            observable = init_observable(observable)
-            index = self._observable_ids.get(_observable_key(observable))
-            if index is not None:
-                observable_indices.append(index)
-            else:
-                observable_indices.append(len(self._observables))
-                self._observable_ids[_observable_key(observable)] = len(
-                    self._observables
-                )
-                self._observables.append(observable)
+        with _registration_lock:
+            for circuit in circuits:
+                index = self._circuit_ids.get(circuit_key(circuit))
+                if index is not None:
+                    circuit_indices.append(index)
+                else:
+                    circuit_indices.append(len(self._circuits))
+                    self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
+                    self._circuits.append(circuit.copy())
+                    self._parameters.append(circuit.parameters)
+            for observable in observables:
+                observable = init_observable(observable)
+                index = self._observable_ids.get(_observable_key(observable))
+                if index is not None:
+                    observable_indices.append(index)
+                else:
+                    observable_indices.append(len(self._observables))
+                    self._observable_ids[_observable_key(observable)] = len(
+                        self._observables
+                    )
+                    self._observables.append(observable)
         job = PrimitiveJob(
             self._call,
             circuit_indices,
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 3b30ba9..e113686 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -19,6 +19,7 @@ Sampler class.
 
 from __future__ import annotations
 
+import threading
 from collections.abc import Sequence
 
 import numpy as np
@@ -32,6 +33,9 @@ from qiskit.result import QuasiDistribution
 from qdd import QddProvider
 from qdd.circuit_property import circuit_key
 
+# run() may be called in several threads
+_registration_lock = threading.Lock()
+
 
 class Sampler(BaseSampler):
     """
@@ -154,15 +158,16 @@ class Sampler(BaseSampler):
         from qiskit.primitives.primitive_job import PrimitiveJob
 
         circuit_indices: List[int] = []
-        for circuit in circuits:
-            index = self._circuit_ids.get(circuit_key(circuit))
-            if index is not None:
-                circuit_indices.append(index)
-            else:
-                circuit_indices.append(len(self._circuits))
-                self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit.copy())
-                self._parameters.append(circuit.parameters)
+        with _registration_lock:
+            for circuit in circuits:
+                index = self._circuit_ids.get(circuit_key(circuit))
+                if index is not None:
+                    circuit_indices.append(index)
+                else:
+                    circuit_indices.append(len(self._circuits))
+                    self._circuit_ids[circuit_key(circuit)] = len(self._circuits)
+                    self._circuits.append(circuit.copy())
+                    self._parameters.append(circuit.parameters)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
         job._submit()
         return job
-- 
2.43.0


From a37487e08c4814a6dc676f946391a828291b8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 41/44] fix: Estimator was affected by later changes of the
 caller's observable

---
 qdd/qdd_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index af30d30..3935e6f 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -172,7 +172,7 @@ class Estimator(BaseEstimator):
                     self._observable_ids[_observable_key(observable)] = len(
                         self._observables
                     )
-                    self._observables.append(observable)
+                    self._observables.append(observable.copy())
         job = PrimitiveJob(
             self._call,
             circuit_indices,
-- 
2.43.0


From 047fe3f9ca19a61ae163d1d604763f7506733595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 42/44] fix: an invalid number of shots among the backend's
 options was not reported

---
 qdd/qdd_backend.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 26bdcc8..f3cc045 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1217,15 +1217,14 @@ class QddBackend(BackendV1):
         """Checks whether the given options are valid to run with (e.g., shots < max_shots)."""
 
         # Check if invalid options (i.e., causing errors) are specified
-        if "shots" in run_options:
-            shots = run_options["shots"]
-            if shots is not None:
-                max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
-                if not (0 < shots <= max_shots):
-                    raise RuntimeError(
-                        f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
-                        f" when using {QddBackend.__name__}."
-                    )
+        shots = run_options.get("shots", self.options.shots)
+        if shots is not None:
+            max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
+            if not (0 < shots <= max_shots):
+                raise RuntimeError(
+                    f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
+                    f" when using {QddBackend.__name__}."
+                )
 
         # Warn if unsupported options are specified
         # Note: we cannot raise an error here because some Qiskit functions (e.g., execute(...)) adds some options to
-- 
2.43.0


From a4a3a5829a869d6a421c904d33c779bfeba87dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 43/44] fix: merge_circuit dropped instructions and conditions
 it does not support

---
 qdd/qdd_backend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index f3cc045..2946b2d 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -475,6 +475,8 @@ class QddBackend(BackendV1):
             if qiskit_gate_type == Measure:
                 continue
             assert len(cargs) == 0
+            if i.condition is not None:
+                raise RuntimeError("Classical condition is not supported in a circuit to merge")
 
             if qiskit_gate_type in _supported_qiskit_gates:
                 self._check_supported(i)
@@ -534,6 +536,12 @@ class QddBackend(BackendV1):
                         f" type={qiskit_gate_type.__name__}, name={i.name}."
                         f" It needs to transpile the circuit before evaluating it."
                     )
+            else:
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={qiskit_gate_type.__name__}, name={i.name}."
+                    f" It needs to transpile the circuit before evaluating it."
+                )
 
             count += 1
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
-- 
2.43.0


From c05507253be4ad09e9e94d18c60fdb6847992a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 44/44] fix: the order in which live gates are collected
 depended on addresses

---
 qdd/qdd_backend.py | 2 +-
 qdd/qdd_gate.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 2946b2d..9bc8c0e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -550,7 +550,7 @@ class QddBackend(BackendV1):
                 current = pyQDD.gc_mat(current, False, list(live_diagrams))
             # pyQDD.clear_cache(False)
         current = pyQDD.applyGlobal(current, circ.global_phase)
-        live_diagrams.add(current)
+        live_diagrams[current] = True
         return current
 
     @staticmethod
diff --git a/qdd/qdd_gate.py b/qdd/qdd_gate.py
index e258f84..6c17757 100644
--- a/qdd/qdd_gate.py
+++ b/qdd/qdd_gate.py
@@ -5,14 +5,14 @@ from qiskit.circuit.gate import Gate
 from qiskit.circuit.exceptions import CircuitError
 
 # diagrams that must survive a garbage collection of matrices
-live_diagrams = weakref.WeakSet()
+live_diagrams = weakref.WeakKeyDictionary()  # in the order of their creation
 
 
 class QDDGate(Gate):
 
     def __init__(self, nQubits: int, medge, basis: str = "QDD"):
         super().__init__("qdd", nQubits, [medge])
-        live_diagrams.add(medge)
+        live_diagrams[medge] = True
 
     def validate_parameter(self, parameter):
         if not isinstance(parameter, pyQDD.mEdge):
-- 
2.43.0

