import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","ART-OLC behaves as an ordered map in one thread",
 "For every sequence of insert, lookup and remove on prefix-free keys, a lookup returns exactly the identifier last inserted for the key and not removed since, and nothing for every other key. A range read returns, in ascending key order and without omissions or duplicates, the stored keys in [start, end), stops at the requested size and reports where to continue. No operation reads or writes outside live memory.",
 ["inputs","histories"],"all operation sequences, key sets (node sizes 4/16/48/256, compressed prefixes longer than the stored part, empty and single-entry trees) and range bounds",
 "The example inserts, looks up, and removes one million integers; it never removes from mixed shapes, never uses long shared prefixes, and never issues a range read.",
 ["ARTOLC/Tree.cpp","ARTOLC/N.cpp","ARTOLC/N4.cpp","ARTOLC/N16.cpp","ARTOLC/N48.cpp","ARTOLC/N256.cpp","ARTOLC/Key.h"],
 [("node growth and shrinking","ARTOLC/N.cpp insertGrow, removeAndShrink"),("optimistic prefix skipping with final key check","ARTOLC/Tree.cpp checkPrefix, checkPrefixPessimistic, checkKey"),("range read","ARTOLC/Tree.cpp lookupRange")],
 [("inner node prefix","compressed path bytes","ARTOLC/N.h prefix, prefixCount")],["Tree::insert","Tree::lookup","Tree::remove","Tree::lookupRange"])
p("P02","ART-OLC point operations are linearizable under concurrency",
 "When threads insert, look up and remove concurrently, the results observed for each key are those of some order of the operations that respects real time. No completed insert or remove is lost, and no lookup returns an identifier that was never stored under that key. Memory that a concurrent operation can still reach is not reused or freed.",
 ["schedules","histories"],"all interleavings of insert, lookup and remove from any number of threads",
 "The example partitions keys among one or more threads and checks nothing about concurrent results; node growth, shrinking and path splits racing with readers are not forced.",
 ["ARTOLC/Tree.cpp","ARTOLC/N.cpp","ARTOLC/Epoche.cpp","ARTOLC/Epoche.h"],
 [("version-checked optimistic reads and lock upgrades","ARTOLC/N.cpp readLockOrRestart, upgradeToWriteLockOrRestart, checkOrRestart"),("epoch based reclamation","ARTOLC/Epoche.cpp")],None,["Tree operations of each thread with invocation and response times"])
p("P03","OptiQL ART behaves as an ordered map in one thread",
 "For every sequence of insert, update, lookup and remove on prefix-free keys, insert succeeds exactly when the key is absent, update and remove succeed exactly when it is present, and lookup returns exactly the current identifier. Range reads return the stored keys in the requested range in ascending order, without omissions or duplicates, up to the requested size. This also holds after repeated updates of the same key make the tree expand a contended path.",
 ["inputs","histories"],"all operation sequences, key sets and range bounds, including sequences with many updates of one key",
 "The example runs each operation once over one million integers in fixed phases; range reads are never issued and results are not compared with a model over mixed sequences.",
 ["OptiQL/Tree.cpp","OptiQL/N.cpp","OptiQL/N4.cpp","OptiQL/N16.cpp","OptiQL/N48.cpp","OptiQL/N256.cpp"],
 [("node growth and shrinking","OptiQL ART N.cpp"),("contention expansion","OptiQL ART Tree.cpp tryExpand"),("range read","OptiQL ART Tree.cpp lookupRange")],None,["Tree::insert, update, lookup, remove, lookupRange"])
p("P04","OptiQL ART point operations are linearizable under concurrency",
 "When threads insert, update, look up and remove concurrently, the results (including success and failure) observed for each key are those of some order of the operations that respects real time. No completed insert, update or remove is lost.",
 ["schedules","histories"],"all interleavings of insert, update, lookup and remove from any number of threads",
 "The example only runs phases of a single kind of operation on disjoint keys; conflicting operations on the same key and racing structure changes are not exercised.",
 ["OptiQL/Tree.cpp","OptiQL/N.cpp","OptiQL/latches/OMCS.h","OptiQL/latches/OMCSImpl.h"],
 [("queue-based optimistic lock","OptiQL/latches/OMCSImpl.h"),("validated reads and lock upgrade","OptiQL ART N.cpp")],None,["Tree operations of each thread with invocation and response times"])
p("P05","OptiQL latches exclude writers and validate optimistic reads",
 "At most one thread at a time is inside a write-latched section, and shared holders never overlap a writer. An optimistic read that validates successfully saw no write in between, and every waiting thread is eventually granted the latch. This holds for every latch kind the library offers and any number of threads and latches.",
 ["schedules","configurations"],"all interleavings of acquire, try-acquire, release and optimistic read on the queue-based, reader-writer and centralized latches",
 "No test uses the latches directly; the example runs uncontended phases, in which queueing and hand-over hardly ever happen.",
 ["OptiQL/latches/OMCSImpl.h","OptiQL/latches/OMCS.h","OptiQL/latches/OMCSOffset.h","OptiQL/latches/MCS.h","OptiQL/latches/MCSRW.h"],
 [("queue hand-over","OptiQL/latches/OMCSImpl.h lock, unlock"),("version validation","OptiQL/latches/OMCSImpl.h begin_read, validate_read"),("queue node pool","OptiQL/latches/OMCSOffset.h")],None,["critical sections guarded by the latches"])
p("P06","The B-link tree behaves as an ordered map in one thread",
 "For every sequence of insert, update, search and scan, insert succeeds exactly when the key is absent, update exactly when it is present, and search returns the current value. A bounded scan and a range scan return the stored entries from the requested bound in ascending order without omissions or duplicates. This holds for every admissible choice of node sizes and split points and for every insertion order.",
 ["inputs","histories","configurations"],"all operation sequences, key orders, node size configurations and scan bounds",
 "The example uses one node size and one order of consecutive keys.",
 ["BLinkTree/b_link_tree.h","BLinkTree/b_link_node.h","BLinkTree/latch.h"],
 [("node split with high key and sibling link","BLinkTree node and tree headers"),("scan over the leaf chain","BLinkTree scan functions")],None,["Insert, Update, Search, ScanFixed, ScanRange"])
p("P07","B-link tree operations are linearizable under concurrency",
 "When threads insert, update, search and scan concurrently, the results observed for each key are those of some order of the operations that respects real time, and no completed insert or update is lost. A scan returns keys in strictly ascending order and includes every key of its range that was stored before it began.",
 ["schedules","histories","configurations"],"all interleavings of insert, update, search and scan from any number of threads",
 "The example starts threads on disjoint keys and verifies nothing about concurrent results.",
 ["BLinkTree/b_link_tree.h","BLinkTree/b_link_node.h","BLinkTree/latch.h"],
 [("latch coupling to the right","BLinkTree tree header"),("root change under latch","BLinkTree tree header")],None,["operations of each thread with invocation and response times"])
p("P08","The OLC B+-tree behaves as an ordered map in one thread",
 "For every sequence of insert, lookup and scan, a lookup reports a key as present with its latest value exactly when it has been inserted, and as absent otherwise. A scan from a key returns, in ascending key order, values of stored keys not smaller than it, without gaps or duplicates, starting with the smallest of the leaf that covers the key. Both published variants of the tree agree.",
 ["inputs","histories"],"all operation sequences and key orders, for both node layouts and payload sizes",
 "The example looks up only keys it inserted, and never checks a lookup of an absent key or a scan.",
 ["BTreeOLC/BTreeOLC.h","BTreeOLC/BTreeOLC_child_layout.h"],
 [("leaf and inner split","BTreeOLC/BTreeOLC.h split, insert"),("lower bound search","BTreeOLC/BTreeOLC.h lowerBound")],None,["BTree::insert, lookup, scan"])
p("P09","OLC B+-tree operations are linearizable under concurrency",
 "When threads insert, overwrite and look up concurrently, the results observed for each key are those of some order of the operations that respects real time. No completed insert is lost, a key once inserted is never reported absent, and a lookup never returns a value never stored under that key.",
 ["schedules","histories"],"all interleavings of insert, lookup and scan from any number of threads",
 "The example inserts disjoint keys in separate phases and never reads while the tree is splitting.",
 ["BTreeOLC/BTreeOLC.h","BTreeOLC/BTreeOLC_child_layout.h"],
 [("optimistic version lock","BTreeOLC/BTreeOLC.h OptLock"),("eager split with lock upgrade","BTreeOLC/BTreeOLC.h insert")],None,["operations of each thread with invocation and response times"])
p("P10","HOT behaves as an ordered map in one thread",
 "For every sequence of insert, upsert and lookup with integer or string keys, the reported outcome (new or replaced) and every lookup are those of a map. Iteration, lower bound and upper bound visit exactly the stored keys in ascending order from the requested position. This holds for every key distribution, including those that force all node layouts and deep trees, and the empty tree.",
 ["inputs","histories"],"all operation sequences, key distributions (dense, sparse, shared long prefixes) and bounds",
 "The example inserts and finds consecutive integers and strings; absent keys, replacement results and ordered iteration are not checked.",
 ["HOT/hot.h","HOT/include/hot/rowex/HOTRowex.hpp","HOT/include/hot/rowex/HOTRowexNode.hpp","HOT/include/hot/rowex/HOTRowexIterator.hpp","HOT/include/hot/commons/SparsePartialKeys.hpp"],
 [("partial key search with final key comparison","HOTRowex.hpp lookup"),("node split, pull-up and intermediate nodes","HOTRowex.hpp insertNewValue, integrateBiNodeIntoTree"),("discriminative bit masks","hot/commons")],None,["HotTree::upsert, HotTree::search, iteration and bounds"])
p("P11","HOT operations are linearizable under concurrency",
 "When threads upsert and look up concurrently, the results observed for each key are those of some order of the operations that respects real time; no completed insert or upsert is lost and a stored key is never reported absent. An ordered scan sees keys in ascending order and includes every key of its range stored before it began. Nodes that a reader can still reach are not freed.",
 ["schedules","histories"],"all interleavings of upsert, insert, lookup and scan from any number of threads",
 "The example's threads insert disjoint keys and no lookup runs while nodes are being replaced.",
 ["HOT/include/hot/rowex/HOTRowex.hpp","HOT/include/hot/rowex/HOTRowexInsertStack.hpp","HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp"],
 [("lock all affected nodes, validate, copy on write","HOTRowex.hpp insertForStackRange, HOTRowexInsertStack.hpp tryLock"),("obsolete marks and epochs","EpochBasedMemoryReclamationStrategy.hpp")],None,["operations of each thread with invocation and response times"])
p("P12","Masstree behaves as an ordered map in one thread",
 "For every sequence of put, get and remove with arbitrary byte-string keys, results are those of an ordered map over byte strings, including keys that contain zero bytes, share long prefixes or are prefixes of each other. Forward and reverse scans from any bound, inclusive or exclusive, visit exactly the stored entries in order. Removing keys never disturbs other keys, however nodes and layers empty and collapse.",
 ["inputs","histories"],"all operation sequences over byte-string keys of all lengths and all scan bounds",
 "The bundled workloads use decimal integer keys (at most a few layers) and check a scripted pattern; arbitrary binary keys, deep layers, and removal patterns with scans from absent bounds are not compared with a model.",
 ["MassTree/masstree_tcursor.hh","MassTree/masstree_insert.hh","MassTree/masstree_remove.hh","MassTree/masstree_split.hh","MassTree/masstree_scan.hh","MassTree/masstree_struct.hh","MassTree/masstree_key.hh","MassTree/kpermuter.hh","MassTree/stringbag.hh","MassTree/ksearch.hh"],
 [("leaf permutation","MassTree/kpermuter.hh"),("layers for 8-byte slices","MassTree/masstree_insert.hh make_new_layer"),("empty node and layer removal","MassTree/masstree_remove.hh")],None,["cursor find, insert, remove; scan, rscan"])
p("P13","Masstree operations are linearizable under concurrency",
 "When threads put, get and remove concurrently, the results observed for each key are those of some order of the operations that respects real time; no completed operation is lost or resurrected. A concurrent scan returns keys in strict order, includes every key present throughout it, and excludes every key absent throughout it. Nodes and values a reader may still hold are not freed before it is done.",
 ["schedules","histories"],"all interleavings of put, get, remove and scan, including layer creation and collapse, from any number of threads",
 "The bundled multi-threaded workloads check keys written by the same thread; conflicting operations on one key and removal racing with splits and scans are not checked for linearizability.",
 ["MassTree/masstree_tcursor.hh","MassTree/nodeversion.hh","MassTree/masstree_get.hh","MassTree/masstree_split.hh","MassTree/masstree_remove.hh","MassTree/btree_leaflink.hh","MassTree/kvthread.hh","MassTree/kvthread.cc"],
 [("node versions with insert and split counters","MassTree/nodeversion.hh"),("permutation publication order","MassTree/masstree_insert.hh"),("epoch based reclamation","MassTree/kvthread.hh rcu_*")],None,["operations of each thread with invocation and response times"])
p("P14","The Masstree server recovers a consistent state after a crash",
 "After the server is killed at any moment (also while it recovers, writes a checkpoint or has just started), and its log files lose any tail that had not been forced to disk, restarting it from its logs and latest committed checkpoint always succeeds and yields the state produced by a prefix of the executed operations: no operation survives without the ones that were answered before it was sent, or with a part of its effect. That prefix contains everything that precedes the last epoch every log has on disk, in particular what a committed checkpoint covers, and everything once the logs became idle. The recovered server then serves reads and writes correctly, with timestamps and epochs that let it be killed and recovered again.",
 ["crash_points","histories","inputs","fault_sequences"],"all request sequences, kill moments, torn log tails, checkpoint timings and repeated crashes, for any number of log threads",
 "No test runs the server, its log or its recovery.",
 ["MassTree/log.cc","MassTree/log.hh","MassTree/checkpoint.cc","MassTree/checkpoint.hh","MassTree/mtd.cc","MassTree/file.cc","MassTree/kvrow.hh","MassTree/value_bag.hh"],
 [("epoch-stamped log records, quiesce and wake marks","MassTree/log.cc loginfo::record, loginfo::run"),("replay window and delta markers","MassTree/log.cc logreplay, logrecord::apply; MassTree/mtd.cc recover"),("atomic checkpoint commit","MassTree/mtd.cc commit_checkpoint, conc_checkpointer")],None,["server responses before and after restart over loopback"])
p("P15","The Masstree server answers every request like a column store",
 "Over its network protocol, gets (whole rows or chosen columns), column puts, replaces, removes and forward scans return what a map from keys to rows of numbered columns returns, whatever the sequence, the column order in a request and the value sizes. Requests split or pipelined across packets are each answered once, in order, with their own sequence number. Concurrent connections observe results consistent with some real-time-respecting order for each key.",
 ["inputs","histories","schedules"],"all request sequences, packet boundaries, row layouts and interleavings of connections",
 "No test runs the server; the in-process workloads use only single-column or fixed-width column rows.",
 ["MassTree/mtd.cc","MassTree/query_masstree.cc","MassTree/kvrow.hh","MassTree/value_bag.hh","MassTree/msgpack.cc","MassTree/msgpack.hh","MassTree/kvproto.hh"],
 [("request dispatch","MassTree/mtd.cc onego, tcp_threadfunc"),("row update","MassTree/kvrow.hh query::run_put, value_bag.hh update"),("streaming parser","MassTree/msgpack.cc streaming_parser")],None,["request and response bytes on loopback connections"])
p("P16","JSON and MessagePack values survive a round trip",
 "Every JSON value written as text or as MessagePack and read back is the same value, whatever its nesting, numbers, strings and key order, and whether the input arrives whole or in arbitrary fragments. Malformed or truncated input is rejected without reading outside the input, never crashes, and never yields a partial value as success. Building and changing values behaves as on plain trees: every operation, also one whose source is a part of its own target, has the documented effect, copies are independent, changing one never changes another, nothing is leaked and memory stays proportional to the content.",
 ["inputs","programs"],"all JSON values, all byte inputs and fragmentations, all sequences of value manipulations",
 "The unit tests check a fixed list of literal documents.",
 ["MassTree/json.cc","MassTree/json.hh","MassTree/msgpack.cc","MassTree/msgpack.hh","MassTree/string.cc","MassTree/straccum.cc"],
 [("text parser and writer","MassTree/json.cc parse_data, unparse"),("MessagePack parser and writer","MassTree/msgpack.cc, msgpack.hh"),("copy on write","MassTree/json.hh uniqueify")],None,["Json parse/unparse, msgpack parse/unparse"])
p("P17","Masstree row values apply column updates exactly",
 "For every row format (bag, array, versioned array, string) behind the query interface: a row put together by any sequence of put, replace and remove requests, with any ascending column lists and value sizes, is what get, single-column get, scan and reverse scan answer with: each column is the last value given for it, columns that no request named stay as they were, and a removed or absent key answers without values. Each change carries a later timestamp than the one before, and the same one that its log record carries. A row that a reader found before a change keeps its columns while the reader holds it. A row that is written for a checkpoint reads back as an equal row. With concurrent readers and writers every answer shows the columns of one whole put. Memory of replaced and removed rows is reclaimed once and never while it is read.",
 ["inputs","histories","schedules"],"all sequences of requests, column lists, value sizes and row formats; all interleavings of readers and writers",
 "The bundled workloads compile a single row format and use one to ten fixed-width columns.",
 ["MassTree/value_bag.hh","MassTree/value_array.hh","MassTree/value_array.cc","MassTree/value_versioned_array.hh","MassTree/value_versioned_array.cc","MassTree/value_string.hh","MassTree/kvrow.hh","MassTree/query_masstree.hh"],
 [("copying update","value_bag.hh update, value_array.cc update"),("version lock in the versioned array","value_versioned_array.hh"),("request handling","kvrow.hh query::run_get, run_put, run_replace, run_remove, run_scan")],None,["query::run_*","row checkpoint_read, checkpoint_write"])
p("P18","Wormhole behaves as an ordered map in one thread",
 "For every sequence of put, get, probe, merge, in-place access, delete and range delete with arbitrary byte-string keys, results are those of an ordered map over byte strings. An iterator positioned at any key visits exactly the stored entries from there in ascending order, also after skipping. This holds for the thread-safe and the single-threaded variants alike, including keys with zero bytes, shared prefixes, and the empty key.",
 ["inputs","histories","configurations"],"all operation sequences, byte-string keys, and API variants",
 "The stress test counts successes on numeric keys and the demo stores a handful of keys; returned values and iteration contents are not compared with a model.",
 ["wormhole/wh.c","wormhole/kv.c","wormhole/wh.h"],
 [("anchor hash trie","wormhole/wh.c wormmeta and wormhmap functions"),("leaf sort and split","wormhole/wh.c wormleaf_*, wormhole_split_*"),("leaf merge on delete","wormhole/wh.c wormhole_del_try_merge")],None,["wormhole_*, whsafe_*, whunsafe_* calls"])
p("P19","Wormhole operations are linearizable under concurrency",
 "When threads put, get, merge, delete and iterate concurrently, the results observed for each key are those of some order of the operations that respects real time; no completed put, merge or delete is lost. Concurrent iteration yields strictly ascending keys, includes every key present throughout and excludes every key absent throughout. Merge callbacks on one key are atomic with respect to each other.",
 ["schedules","histories"],"all interleavings of put, get, merge, delete, range delete and iteration from any number of threads",
 "The stress test verifies only that a final scan is ordered and some counters agree.",
 ["wormhole/wh.c","wormhole/lib.c"],
 [("leaf locks with version","wormhole/wh.c wormhole_jump_leaf_read/write"),("double meta tables with quiescent-state reclamation","wormhole/wh.c wormhole_split_insert, qsbr in lib.c")],None,["operations of each thread with invocation and response times"])
p("P20","Wormhole's key, encoding and locking helpers honour their contracts",
 "Key comparison, matching and common-prefix length agree with byte-string order for every pair of keys, also in the compact encoded form; encoding then decoding a pair restores it and the reported sizes are the bytes used. Sorting, checksums, variable-length integers, bit operations and string conversions agree with their mathematical definition for all inputs. The slab allocator never hands out an object twice, and coroutines keep their local state across switches. The spin, reader-writer and mutex locks exclude each other as named, and the quiescent-state reclaimer never returns before every registered reader has passed a quiescent state.",
 ["inputs","schedules"],"all byte strings, integers and array contents; all interleavings of lock users",
 "The helpers are only exercised indirectly by the programs, on numeric keys, without any comparison to a definition.",
 ["wormhole/kv.c","wormhole/kv.h","wormhole/lib.c","wormhole/lib.h"],
 [("comparison and encoding","wormhole/kv.c"),("bit tricks, hashing, sorting, locks, qsbr","wormhole/lib.c")],None,["kv_*, kref_*, kv128_*, vi128_*, qsort_*, locks, qsbr_*"])
p("P21","Google B-tree containers behave like the standard ones",
 "For every sequence of insertions, erasures (by key, iterator or range), lookups, bounds, swaps, copies and clears, the map, set, multimap and multiset have the contents, order, sizes, iterator results and return values of the corresponding standard containers. Elements are constructed and destroyed exactly once and memory outside the container's nodes is never touched. This holds for every node size, key type and comparator.",
 ["inputs","histories","configurations"],"all operation sequences, node sizes, element types and comparators",
 "The example inserts and finds consecutive integers in one map; erasure, rebalancing, multi-containers and hints are not exercised.",
 ["GoogleBTree/btree.h","GoogleBTree/btree_container.h","GoogleBTree/btree_map.h"],
 [("rebalance, split and merge","GoogleBTree/btree.h rebalance_or_split, try_merge_or_rebalance"),("internal consistency check","GoogleBTree/btree.h verify")],None,["public container operations, verify()"])
p("P22","tlx B+-tree containers behave like the standard ones",
 "For every sequence of insertions, hinted insertions, bulk loads, erasures (one, all, by iterator), lookups, bounds, copies, swaps, comparisons and clears, the set, multiset, map and multimap have the contents, order, sizes and results of the corresponding standard containers, forwards and backwards (equal elements may be in any order). The tree's own structural check passes after each operation. Elements are destroyed exactly once and memory outside the nodes is never touched.",
 ["inputs","histories","configurations"],"all operation sequences, slot counts, binary or linear search, element types and comparators",
 "The example inserts and finds consecutive integers in one map.",
 ["STX/tlx/tlx/container/btree.hpp","STX/tlx/tlx/container/btree_map.hpp","STX/tlx/tlx/container/btree_multimap.hpp","STX/tlx/tlx/container/btree_set.hpp","STX/tlx/tlx/container/btree_multiset.hpp"],
 [("split, merge and shift of leaf and inner nodes","btree.hpp insert_descend, erase_one_descend, erase_iter_descend"),("structural check","btree.hpp verify")],None,["public container operations, verify()"])
p("P23","tlx heaps, buffers, caches and trees match their abstract types",
 "Every operation sequence on the heaps (plain, addressable, radix), loser trees, ring buffer, cache, splay tree, simple vector, string view and reference-counted pointer yields the results of the abstract type: priority order, first-in first-out order, least-recently-used eviction, sortedness, string semantics, single destruction at the last release. Objects are constructed and destroyed exactly once and no memory outside the container is accessed.",
 ["inputs","histories","configurations"],"all operation sequences, element values (with duplicates), arities, capacities and comparators",
 "None of these containers is compiled by any test.",
 ["STX/tlx/tlx/container/d_ary_heap.hpp","STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp","STX/tlx/tlx/container/radix_heap.hpp","STX/tlx/tlx/container/loser_tree.hpp","STX/tlx/tlx/container/ring_buffer.hpp","STX/tlx/tlx/container/lru_cache.hpp","STX/tlx/tlx/container/splay_tree.hpp","STX/tlx/tlx/container/simple_vector.hpp","STX/tlx/tlx/container/string_view.hpp","STX/tlx/tlx/counting_ptr.hpp"],
 [("heap order maintenance","d_ary_heap.hpp sift_up/sift_down"),("bucket redistribution","radix_heap.hpp"),("tournament replay","loser_tree.hpp"),("circular indices","ring_buffer.hpp")],None,["public container operations"])
p("P24","tlx sorting, merging and selection algorithms are correct",
 "Every sort (string sorts, merge sort, sorting networks, sequential or parallel) outputs a sorted permutation of its input, stable where promised, with correct common-prefix lengths where requested. Every multiway merge outputs the requested number of smallest elements in order, takes equal elements in sequence order when stable, and advances its inputs accordingly. Multi-sequence partitioning and selection split the sequences exactly at the requested rank.",
 ["inputs","configurations","schedules"],"all inputs (lengths, duplicates, long shared prefixes), numbers of sequences, thread counts, splitting strategies and comparators",
 "None of these algorithms is compiled by any test.",
 ["STX/tlx/tlx/sort/strings.hpp","STX/tlx/tlx/sort/strings_parallel.hpp","STX/tlx/tlx/sort/strings/radix_sort.hpp","STX/tlx/tlx/sort/strings/multikey_quicksort.hpp","STX/tlx/tlx/sort/strings/insertion_sort.hpp","STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp","STX/tlx/tlx/sort/strings/sample_sort_tools.hpp","STX/tlx/tlx/sort/parallel_mergesort.hpp","STX/tlx/tlx/sort/networks/best.hpp","STX/tlx/tlx/sort/networks/bose_nelson.hpp","STX/tlx/tlx/algorithm/multiway_merge.hpp","STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp","STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp","STX/tlx/tlx/algorithm/multisequence_partition.hpp","STX/tlx/tlx/algorithm/multisequence_selection.hpp"],
 [("loser tree merge variants","multiway_merge.hpp"),("exact splitting","multisequence_partition.hpp"),("string radix and sample sorts","sort/strings")],None,["public algorithm calls"])
p("P25","tlx digests, encodings, string and math helpers are exact",
 "The digests and keyed hash give the standard result for every message, however it is fed in pieces. Base64, hexadecimal and URI encodings decode to the original and reject or skip invalid input as documented; splitting and joining, trimming, replacing, case-insensitive and containment tests, word wrapping, edit distance and unit parsing follow their definition for every string. Bit-counting, logarithm, rotation, byte-swap, division and power-of-two helpers and numeric aggregates equal their mathematical definition for every argument.",
 ["inputs"],"all messages, fragmentations, strings and integers",
 "None of these helpers is compiled by any test.",
 ["STX/tlx/tlx/digest/md5.cpp","STX/tlx/tlx/digest/sha1.cpp","STX/tlx/tlx/digest/sha256.cpp","STX/tlx/tlx/digest/sha512.cpp","STX/tlx/tlx/siphash.hpp","STX/tlx/tlx/string/base64.cpp","STX/tlx/tlx/string/hexdump.cpp","STX/tlx/tlx/string/split.cpp","STX/tlx/tlx/string/replace.cpp","STX/tlx/tlx/string/levenshtein.hpp","STX/tlx/tlx/math/aggregate.hpp","STX/tlx/tlx/math/integer_log2.hpp"],
 [("block processing with buffered remainder","digest/*.cpp process"),("table-driven codecs","string/base64.cpp, string/hexdump.cpp")],None,["public functions and classes"])
p("P26","tlx thread pool, barriers and semaphore synchronise correctly",
 "The thread pool runs every enqueued job exactly once, also jobs enqueued by jobs, and waiting for emptiness returns only when none is queued or running. A barrier releases no thread before all have arrived and can be reused for any number of rounds, running its completion action exactly once per round. A semaphore never admits more than its value allows and never loses a wake-up.",
 ["schedules","configurations"],"all interleavings, thread counts, job graphs and reuse patterns",
 "None of these primitives is compiled by any test.",
 ["STX/tlx/tlx/thread_pool.cpp","STX/tlx/tlx/thread_pool.hpp","STX/tlx/tlx/thread_barrier_mutex.hpp","STX/tlx/tlx/thread_barrier_spin.hpp","STX/tlx/tlx/semaphore.hpp"],
 [("condition variables and idle counters","thread_pool.cpp worker, loop_until_empty"),("phase counter","thread_barrier_*.hpp"),("counted wait","semaphore.hpp")],None,["job executions, barrier crossings, semaphore acquisitions"])
p("P27","FB+-tree behaves as an ordered map in one thread",
 "For every sequence of upsert, update, lookup and remove with integer or string keys, the returned old entries and every lookup are those of a map. Iteration from the beginning, from a lower bound or from an upper bound visits exactly the stored entries in ascending key order. This holds for every key distribution (dense, sparse, negative, long shared prefixes, keys that are prefixes of others) and however nodes split, merge and collapse.",
 ["inputs","histories","configurations"],"all operation sequences, key types, key distributions and bounds",
 "The tree is not even compiled by the tests, because its utility submodule is missing.",
 ["FBTree/fbtree.h","FBTree/inode.h","FBTree/lnode.h","FBTree/constant.h","FBTree/compare.h","FBTree/control.h"],
 [("feature comparison","FBTree/inode.h to_next, index_or_sibling"),("split and anchor insertion","FBTree/inode.h insert, split; FBTree/lnode.h upsert"),("merge, bound removal","FBTree/inode.h remove, merge, bound_remove; FBTree/lnode.h remove")],None,["upsert, update, lookup, remove, iterators"])
p("P28","FB+-tree operations are linearizable under concurrency",
 "When threads upsert, update, look up and remove concurrently, the results (including the old entries returned) observed for each key are those of some order of the operations that respects real time; every entry is handed back exactly once. A concurrent iteration yields strictly ascending keys, includes every key present throughout and excludes every key absent throughout. Nodes and keys a guarded reader may reach are not freed.",
 ["schedules","histories","configurations"],"all interleavings of upsert, update, lookup, remove and iteration from any number of threads",
 "The tree is not even compiled by the tests.",
 ["FBTree/fbtree.h","FBTree/inode.h","FBTree/lnode.h","FBTree/control.h"],
 [("version control word","FBTree/control.h"),("latch-free update","FBTree/lnode.h update"),("sibling links and high keys","FBTree/lnode.h to_sibling")],None,["operations of each thread with invocation and response times"])
p("P29","FAST lookups find the same entry as a search of the sorted keys",
 "For every sorted array of keys loaded in bulk, a lookup of any key returns the entry that a plain search of the array returns, for keys present, absent, below the smallest and above the largest. The tree built from the array holds every key once and lookups never read outside it.",
 ["inputs","configurations"],"all sorted key arrays, sizes and probe keys",
 "The Rust crate's tests cannot run offline and the C kernel has no test.",
 ["FAST/fast64/c/lookup.c","FAST/fast64/src/lib.rs"],
 [("SIMD-blocked tree layout","FAST/fast64/src/lib.rs"),("lookup kernel","FAST/fast64/c/lookup.c")],None,["lookup calls"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
for x in P:
    for f in x['anchors']['files']:
        import os
        if not os.path.exists('/repo/'+f): print(x['id'],f)
print(len(P))
