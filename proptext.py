"""Text of the properties (properties.jsonl is generated from here by tools/gen.py)."""

P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P[pid] = dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
        anchors=dict(files=files.split(),
                     mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        P[pid]["anchors"]["observe_at"] = observe
    assert len(title) <= 80, pid


prop("C01", "Allocation failure leaves every component unchanged and leak free",
     "When an allocation made on behalf of an operation fails, the operation reports the failure, and the "
     "component still holds exactly what it held before (a range charge of a radix tree may keep the part it "
     "charged); repeating it with memory available succeeds with the result it would have had at once. Releasing or "
     "destroying the component at any point gives every block back to the allocator exactly once.",
     "fault_sequences histories",
     "every single and double allocation failure placement, inside every operation sequence up to the depth bound, for every component that allocates",
     "The existing tests only run with an allocator that never fails; the failure branches are never entered.",
     "src/allocator.c src/array.c src/hashmap.c src/radix.c src/btree.c src/skiplist.c src/fifo.c src/ringbuf.c src/mpi.c src/matrix.c src/fsm.c src/levenshtein.c src/cache/cache.c src/bloom.c src/argv.c src/bitmap.c src/memalloc.c src/libc/strdup.c src/textsearch/textsearch.c",
     [("error returns after every bfdev_malloc family call", "src/*.c"), ("destroy/release/free functions", "src/*.c")])

prop("C02", "FIFO without records is a bounded queue in every history",
     "A FIFO without records returns the elements in exactly the order they went in, accepts exactly as many as "
     "there is room for and returns exactly as many as there are, for every put, get, peek, bulk in/out, reset and "
     "homing sequence, static or dynamic, also when its counters wrap around. It never reads or writes outside "
     "its storage or the caller's buffer, rounds a dynamic capacity up to a power of two and refuses one below two.",
     "histories inputs",
     "every sequence of operations with every length up to capacity+2, from closure of the (offset, length) state space, capacities 2..16, element sizes 1, 2, 4, counter start 0 and just below wrap",
     "The fifo tests push and pop a handful of fixed sequences; wrap of the counters, every offset and length combination and exact buffer limits are not reached.",
     "include/bfdev/fifo.h src/fifo.c",
     [("offset masking and two part copies", "src/fifo.c fifo_in_copy/fifo_out_copy"), ("unused/len arithmetic", "include/bfdev/fifo.h")])

prop("C03", "Record FIFO keeps record boundaries and contents",
     "A record FIFO returns its records one per read, in order, each with exactly the contents and length it was "
     "written with (a too small buffer receives the head and the record is consumed); a record that does not fit "
     "the free space or the length header is refused whole. Lengths are counted in elements for every element "
     "size, and peek consumes nothing.",
     "histories inputs",
     "every sequence of record operations with every record length up to capacity+1, all offsets, 1 and 2 byte headers, element sizes 1, 2, 4",
     "The existing fifo tests have no record FIFO case that checks contents at every offset.",
     "include/bfdev/fifo.h src/fifo.c",
     [("record header encode/decode", "src/fifo.c fifo_record_poke/fifo_record_peek")])

prop("C04", "Ring buffer keeps the newest data and drops whole oldest items",
     "A ring buffer always accepts input and holds exactly the newest elements that fit, oldest first, dropping "
     "the oldest ones; with records, whole oldest records are dropped and no record boundary is lost. Reads "
     "return exactly that content and nothing outside the storage or the caller's buffer is touched.",
     "histories inputs",
     "every operation sequence with every length up to closure of the state space, capacities 2..16, element sizes 1, 2, 4, with and without records, counter wrap included",
     "ring buffer has only an example program writing a fixed pattern; overwriting at every offset, record dropping and wrap are not checked.",
     "include/bfdev/ringbuf.h src/ringbuf.c",
     [("oldest data eviction", "src/ringbuf.c"), ("record header encode/decode", "src/ringbuf.c")])

prop("C05", "Single producer single consumer FIFO needs no lock",
     "With one thread only writing and one thread only reading, without any lock, a FIFO delivers every accepted "
     "element exactly once, in order and with the value that was written, under every interleaving. A write "
     "reports full only if the queue was full at some point during the call and a read reports empty only if it "
     "was empty at some point. Record FIFOs never show a partly written record. The circular buffer macros count the "
     "content, the space and their contiguous parts exactly, and support the same two threads.",
     "schedules histories",
     "every interleaving (at each memory access of shared state, sequentially consistent) of short producer and consumer programs using put/get/in/out/peek, from every fill level and counters before and after wrap; every head, tail and size up to 64 of the circular buffer macros",
     "No existing test runs two threads; an interleaving can only be hit by chance.",
     "include/bfdev/fifo.h src/fifo.c include/bfdev/circle.h docs/components.md",
     [("data is copied before the index is published", "src/fifo.c bfdev_fifo_in_flat"), ("index read before data", "src/fifo.c bfdev_fifo_out_flat")])

prop("C06", "Lock free list loses and duplicates nothing",
     "Under every interleaving of concurrent additions (single and batch) and deletions of all nodes, every added "
     "node is handed out exactly once, never lost and never twice, batches stay contiguous and in order, and "
     "addition reports whether the list was empty truthfully.",
     "schedules",
     "every interleaving at each atomic access of up to 3 threads with short programs",
     "There is no llist test at all and interleavings cannot be controlled by a unit test.",
     "include/bfdev/llist.h src/llist.c include/bfdev/cmpxchg.h",
     [("compare and swap loop", "src/llist.c"), ("exchange of the head", "include/bfdev/llist.h")])

prop("C07", "References are counted exactly and released once",
     "A reference count reports its release to exactly one of the callers that drop references, under every "
     "interleaving. Taking a reference with the not-zero calls succeeds if and only if the count was not zero at that "
     "moment, adds exactly the requested number, and tells so; every reported previous value and test result fits one "
     "order of indivisible steps. With debugging enabled misuse (use after release, negative count, overflow) is "
     "reported exactly when it happens.",
     "schedules inputs",
     "every interleaving of up to 3 threads running every mix of count operations, and every operation on every pair of boundary values, with and without debugging",
     "No test covers refcount; races and boundary values are outside what examples run.",
     "include/bfdev/refcount.h src/refcount.c include/bfdev/atomic.h include/bfdev/cmpxchg.h",
     [("compare and swap loop of addnz", "include/bfdev/refcount.h bfdev_refcnt_fetch_addnz_test"), ("release test on the fetched value", "include/bfdev/refcount.h bfdev_refcnt_fetch_sub_test")])

prop("C08", "Dynamic array behaves as a sequence",
     "A dynamic array holds exactly the elements appended and not yet popped, in order, through every append, push, "
     "pop, peek, reserve, resize, reset and release sequence and every reallocation; its capacity only grows on "
     "demand, index 0..n-1 addresses them, and out of range access is refused.",
     "histories inputs",
     "every operation sequence up to the depth bound with every small count, several element sizes",
     "array tests push fixed counts; sequences mixing growth, pops and resizes with moving storage are not covered.",
     "include/bfdev/array.h src/array.c",
     [("capacity growth", "src/array.c array_resize"), ("element offset", "src/array.c array_peek")])

prop("C09", "Linked lists keep exactly the sequence the operations describe",
     "For every sequence of add, delete, replace, move, swap and splice operations the double, single "
     "and hash linked lists contain exactly the nodes the sequence model contains, in the same order, forwards and "
     "backwards, with consistent links and correct emptiness/first/last predicates. Every traversal macro visits "
     "exactly the model's nodes in its documented order, and the safe ones survive deletion of the current node.",
     "histories",
     "every sequence of list operations over up to 5 nodes and 2 heads until closure of the reachable states",
     "The list tests walk over lists built by appends; splices, moves and swaps in every position and all iterators are not covered.",
     "include/bfdev/list.h include/bfdev/slist.h include/bfdev/hlist.h",
     [("link updates", "include/bfdev/list.h"), ("pprev updates", "include/bfdev/hlist.h")])

prop("C10", "Index list stays sorted with exactly the inserted nodes",
     "An index list keeps every inserted node in comparison order, each reachable through the node chain exactly "
     "once and equal keys in insertion order, through every add and delete sequence; the index chain holds exactly one "
     "entry per distinct key.",
     "histories",
     "every add/delete sequence over up to 6 nodes with every key assignment, until closure",
     "Only an example inserts random nodes and prints them; deletion of an index carrying node is not checked.",
     "include/bfdev/ilist.h src/ilist.c",
     [("index chain maintenance", "src/ilist.c bfdev_ilist_add bfdev_ilist_del")])

prop("C11", "Sorting is an ordered permutation and searching agrees with it",
     "Sorting an array orders it according to the comparison, keeping exactly the same elements; list sorting also "
     "keeps equal elements in their original order. Binary search returns a matching element exactly if one exists, "
     "for every array and key, touching nothing outside the array.",
     "inputs",
     "every array and list over a small key alphabet up to length 8 (all permutations and all multisets), several element sizes",
     "The sort examples sort random data once and print it.",
     "include/bfdev/sort.h src/sort.c src/list-sort.c include/bfdev/bsearch.h src/bsearch.c",
     [("heap sort", "src/sort.c"), ("bottom up merge", "src/list-sort.c"), ("binary search", "src/bsearch.c")])

prop("C12", "Red black tree stays ordered, balanced and complete",
     "After every sequence of insertions, deletions and replacements a red black tree contains exactly the inserted "
     "nodes in comparison order, satisfies the red black balance rules, and answers find and iteration (in "
     "order forwards and backwards, pre and post order) accordingly. The cached variant always knows its leftmost node and the augmented "
     "variant's per node summaries are always exact.",
     "histories",
     "every insertion/deletion/replacement sequence over up to 8 keys until closure of the tree shapes (all reachable coloured trees), duplicates included",
     "The rbtree examples insert random nodes and iterate; they check neither balance nor each deletion case.",
     "include/bfdev/rbtree.h src/rbtree.c src/rbtree-debug.c",
     [("insert fixup", "src/rbtree.c"), ("erase and erase fixup", "src/rbtree.c"), ("augment callbacks", "src/rbtree.c")])

prop("C13", "Heap always yields the extreme element and keeps its shape",
     "After every sequence of insertions and deletions of arbitrary nodes a binary heap contains exactly the "
     "inserted nodes, its root is an extreme one, no child precedes its parent, the tree is complete and "
     "its node count exact; iteration visits every node once.",
     "histories",
     "every insert/delete sequence over up to 7 nodes until closure of all reachable heaps, duplicates included",
     "heap examples insert random values and pop; deleting inner nodes in every shape is not covered.",
     "include/bfdev/heap.h src/heap.c src/heap-debug.c",
     [("path to last node", "src/heap.c"), ("sift and swap of nodes", "src/heap.c")])

prop("C14", "B+ tree is an exact ordered map",
     "After every sequence of insert, remove, update and clash insertions a B+ tree maps exactly the inserted keys to "
     "their values (all zeros being a key like any other), reports presence and absence correctly, and first/last/next/previous enumerate "
     "the keys in descending order and back. "
     "A refused or failed operation changes nothing, and clearing or releasing gives every block back.",
     "histories inputs fault_sequences",
     "every insert/remove/update sequence over a small key universe until closure of the tree states with small nodes, for each key layout",
     "Only a bandwidth example exists; splits, borrows and merges at each level are not asserted.",
     "include/bfdev/btree.h src/btree.c src/btree-utils.c",
     [("split on insert", "src/btree.c"), ("rebalance and merge on remove", "src/btree.c")])

prop("C15", "Radix tree is an exact sparse array",
     "A radix tree holds exactly the cells that were allocated and not freed: a lookup succeeds exactly for those "
     "offsets and returns the same address each time, and iteration visits exactly those offsets in "
     "ascending order. Freeing a cell disturbs no other one, cells of a charged range need no further memory, "
     "an allocation that fails leaves the tree usable, and releasing the tree returns all memory.",
     "histories inputs fault_sequences",
     "every alloc/free/find/iterate sequence over offsets chosen around every level boundary, several cell sizes",
     "The radix example allocates sequential offsets once.",
     "include/bfdev/radix.h src/radix.c",
     [("level extension and shrink", "src/radix.c"), ("block bitmap", "src/radix.c")])

prop("C16", "Skip list is an ordered multiset for every tower height",
     "Whatever heights the random source hands out, a skip list contains exactly the inserted and not yet deleted "
     "keys in order, finds a key exactly if it is present, and each level is an ordered sublist of the one below. "
     "Destroying it gives every block back.",
     "histories inputs",
     "every insert/delete/find sequence over a small key universe with every choice of node height, until closure",
     "The example uses one seed; heights are random so no test controls them.",
     "include/bfdev/skiplist.h src/skiplist.c",
     [("level search", "src/skiplist.c"), ("random height", "src/skiplist.c")])

prop("C17", "Interval queries enumerate exactly the overlapping segments",
     "After every insertion and deletion history a segment tree query over [start, end] enumerates exactly the "
     "stored segments that overlap that closed range, each once, in order of their start, from the beginning or "
     "continued from any hit, for the built-in type and for instances defined by the user over other types.",
     "histories inputs",
     "every insert/delete history with up to 5 segments over 4 ordered end points (including the extremes of the type) until closure of the reachable trees, and every query range in each",
     "The example inserts ten random segments once and prints what the queries return.",
     "include/bfdev/segtree.h src/segtree.c include/bfdev/rbtree.h",
     [("subtree maximum maintenance", "include/bfdev/segtree.h STNAME##_insert"),
      ("pruned search and successor", "include/bfdev/segtree.h STNAME##_search STNAME##_next")])

prop("C18", "Hash map and hash table find exactly what was put in",
     "Through every sequence of add, set, append, update, delete and reset, with growth and shrink rehashing and any "
     "hash collisions, a hash map contains exactly the entries the model has; lookup finds an entry exactly if "
     "the key is present, and add on an existing key, set and update follow their documented "
     "replace/refuse behaviour. The number of buckets follows the number of entries both ways. "
     "Traversal of a map or a table visits every stored entry exactly once, in the safe loops also while entries are deleted.",
     "histories inputs",
     "every operation sequence over a small key universe with chosen (colliding) hashes, across all rehash thresholds",
     "The hashmap example inserts and removes once; collisions and shrinks are not asserted.",
     "include/bfdev/hashmap.h include/bfdev/hashtbl.h src/hashmap.c",
     [("rehash", "src/hashmap.c hashmap_rehash"), ("capacity thresholds", "src/hashmap.c")])

prop("C19", "Memory pool hands out disjoint, aligned blocks and merges them back",
     "For every sequence of alloc, realloc and free, blocks handed out by the region allocator are word aligned, "
     "lie inside the managed region, overlap neither each other nor bookkeeping, and keep their contents until freed or moved by realloc. "
     "A request is refused exactly if no free block is large enough, however large it is. "
     "Freeing everything coalesces the region into one free block again, and each fit policy picks the block "
     "its name says.",
     "histories inputs",
     "every operation sequence up to the depth bound over an adversarial set of sizes on small regions, for the three fit policies",
     "memalloc tests do random allocations without a content, overlap or policy oracle over all orders.",
     "include/bfdev/memalloc.h src/memalloc.c",
     [("split on allocate", "src/memalloc.c"), ("merge of neighbours on free", "src/memalloc.c"), ("fit policies", "src/memalloc.c")])

prop("C20", "Pool allocator and resource pool release each resource exactly once",
     "The pool allocator returns disjoint aligned pieces inside its storage until it is exhausted, and makes the storage reusable only "
     "when every piece was freed. The resource pool runs every registered release exactly once, newest first, and a released or "
     "removed resource is never released again.",
     "histories inputs",
     "every operation sequence up to closure with every small size and alignment",
     "respool has one example; allocpool has none.",
     "include/bfdev/allocpool.h src/allocpool.c include/bfdev/respool.h src/respool.c",
     [("bump pointer with alignment", "src/allocpool.c"), ("node list", "src/respool.c")])

prop("C21", "Cache obtains, evicts and accounts as its policy demands",
     "For every sequence of obtain, find, put, delete, set, commit and reset the LRU and LFU caches never exceed their "
     "capacity, never evict an element that is referenced, evict the least recently (least frequently) used unreferenced one, find exactly "
     "the tags resident, and keep hit/miss/used accounting exact.",
     "histories inputs",
     "every operation sequence over up to 4 tags and 1..3 elements until closure, both policies, with and without deferred commits",
     "The cache example prints random accesses; nothing compares the evictions with a policy model.",
     "include/bfdev/cache.h src/cache/cache.c src/cache/lru.c src/cache/lfu.c",
     [("status lists", "src/cache/cache.c"), ("policy hooks", "src/cache/lru.c src/cache/lfu.c")])

prop("C22", "Big integer arithmetic equals the mathematical result",
     "Every multi precision operation (set, import/export, add, subtract, multiply, divide, modulo, shifts, bitwise, "
     "comparison, and their immediate forms) yields the exact mathematical integer result for all operands, signs "
     "and operand lengths, also when the destination is one of the operands. Numbers are sign and magnitude: shifts, and, or, xor and bit "
     "operations work on the magnitude; division truncates towards zero, the remainder has the sign of the dividend (when both results "
     "go to the same number it receives the quotient); zero is never negative; the stored magnitude has no leading zero words. Division by "
     "zero is refused with an error and leaves the operands unchanged; a failed allocation is reported and leaves every operand unchanged "
     "(for operations with one result also the destination).",
     "inputs",
     "every combination of operands built from boundary words (0, 1, 2, max-1, max, top bit, ...) up to 3 words, both signs, every aliasing pattern of the operands",
     "The mpi tests compute a few known products; carry and borrow chains, aliasing and signs are not covered.",
     "include/bfdev/mpi.h src/mpi.c include/bfdev/dword.h src/dword.c",
     [("carry and borrow propagation", "src/mpi.c"), ("quotient estimation", "src/mpi.c"), ("signed wrappers", "src/mpi.c")])

prop("C23", "Bitmap operations agree with sets of bits",
     "For every pair of bitmaps, range and shift distance, the bitmap operations (and, or, xor, andnot, complement, shifts, replace, "
     "set and clear of a range, zero, fill, copy, equal, or_equal, intersects, empty, full, alloc, zalloc) give exactly the set theoretic result on the first n bits, for "
     "run time and for compile time constant sizes and with the destination being an operand; range operations change nothing outside the range, nothing is written outside the words of the bitmap, "
     "and bits behind the last one never influence a result.",
     "inputs",
     "every size and every range/shift around each word boundary up to 2 words + 2 bits, over all boundary bit patterns",
     "bitmap has no test; the inline single word path and the multi word path need separate, exhaustive coverage.",
     "include/bfdev/bitmap.h include/bfdev/bitmap-comp.h src/bitmap.c",
     [("first/last word masks", "include/bfdev/bits.h"), ("multi word loops", "src/bitmap.c")])

prop("C24", "Bit search and walk visit exactly the matching bits",
     "Find first, next, previous and last bit (set or clear, also in the intersection of two bitmaps, and with byte swapped words) "
     "return exactly the mathematically first matching position or the size if there is none, for every "
     "size and start; walks visit exactly the matching bits in order.",
     "inputs",
     "every single bit, pair of bits and boundary pattern for every size up to 2 words + 2 bits and every start position",
     "bitwalk tests use one random bitmap per run.",
     "include/bfdev/bitwalk.h include/bfdev/bitwalk-comp.h src/bitwalk.c",
     [("first and last word masks", "src/bitwalk.c"), ("small size inline path", "include/bfdev/bitwalk.h")])

prop("C25", "Bit and integer primitives match their mathematical definition",
     "Find first/last set, population count, parity, bit reversal, byte swap, byte order conversion, rotate, bit fields, power of "
     "two rounding, log2, BCD, alignment, unaligned access and overflow checking helpers return the "
     "mathematical value for every argument, in constant and in run time forms.",
     "inputs",
     "every 8 and 16 bit argument and every boundary/single/double bit pattern of 32 and 64 bit arguments",
     "log2 and bitops examples print a few values.",
     "include/bfdev/bitops.h include/bfdev/popcount.h include/bfdev/bitrev.h include/bfdev/swab.h include/bfdev/log2.h include/bfdev/bcd.h include/bfdev/align.h include/bfdev/unaligned.h include/bfdev/overflow.h include/bfdev/math.h include/bfdev/asm-generic src/popcount.c src/bitrev.c src/bcd.c arch/generic",
     [("generic implementations", "include/bfdev/asm-generic/bitops"), ("tables", "src/bitrev.c src/popcount.c")])

prop("C26", "Base32, Base64 and Ascii85 are exact, inverse, memory safe codecs",
     "Encoding any byte string gives exactly the RFC 4648 text (base32, base64 with padding), respectively the big endian base 85 groups with z for "
     "a zero word (ascii85, a last partial group padded with zero bytes), in the announced length; decoding it gives back the original bytes (ascii85: and the padding). "
     "Text with a character outside the alphabet before the first padding character, and ascii85 text with an incomplete or too large group, is refused; "
     "other text decodes to what its characters denote. Nothing is read outside the input or written outside the announced sizes.",
     "inputs",
     "every byte string up to 2 bytes, every byte value at every position of strings up to 16 bytes, boundary words for ascii85, every single character corruption of encodings, all short ascii85 texts",
     "The examples round trip one buffer.",
     "include/bfdev/base32.h include/bfdev/base64.h include/bfdev/ascii85.h src/crypto/base32.c src/crypto/base64.c src/crypto/ascii85.c",
     [("group encode/decode", "src/crypto")])

prop("C27", "Message digests are standard values independent of chunking",
     "MD5, SHA-1 and SHA-2 digests equal the published standard's value for every message length, however the message "
     "is split into update calls; a context can be reinitialised and digests never read beyond the data given.",
     "inputs histories",
     "every message length up to 260 bytes and every split into up to three updates around each block boundary, against independent reference implementations",
     "The examples hash one buffer in one call.",
     "include/bfdev/md5.h include/bfdev/sha1.h include/bfdev/sha2.h include/bfdev/crypto src/crypto",
     [("block buffering", "include/bfdev/crypto"), ("padding", "include/bfdev/crypto"), ("compression", "src/crypto")])

prop("C28", "CRCs equal their polynomial's remainder, incrementally and everywhere",
     "Every CRC routine returns the remainder defined by its polynomial and bit order for every input and initial value, and "
     "computing over a split input gives the same value as over the whole, in every build configuration. crc7 keeps its "
     "register in the upper seven bits of the byte; crc4 takes a length in bits, and a partial last byte counts as a byte "
     "holding only its low bits.",
     "inputs configurations",
     "every 1 byte input and initial byte, every length up to 40 over boundary patterns, every split point, table and extended configurations",
     "crc examples print checksums without comparing them.",
     "include/bfdev/crc.h src/crypto/crc include/bfdev/crypto",
     [("table generators and lookup", "src/crypto")])

prop("C29", "Text search finds exactly all occurrences",
     "For every text, pattern, option (case folding) and block split of the text, each search algorithm reports exactly the "
     "positions of the leftmost, non overlapping occurrences, in order, through find and successive next calls, and then "
     "no more; kmp sees through the borders of blocks, bm and sunday search each block by itself; none reads outside the "
     "supplied blocks. Searches of one context are independent, a failed create leaves nothing behind, and algorithms are "
     "found by name exactly while registered.",
     "inputs histories",
     "every pattern up to 4 and text up to 6 characters over 2-4 letter alphabets incl. bytes 0x80 and 0xff, every split into blocks, each algorithm, case folding on and off; patterns up to 7 in unsplit texts up to 9; every pair of bytes; histories of 4 registrations",
     "The example searches fixed strings in a single block.",
     "include/bfdev/textsearch.h src/textsearch/textsearch.c src/textsearch/bm.c src/textsearch/kmp.c src/textsearch/sunday.c src/textsearch/linear.c",
     [("shift tables", "src/textsearch/bm.c sunday.c"), ("prefix function", "src/textsearch/kmp.c"), ("block iteration", "src/textsearch")])

prop("C30", "State machine runs transitions, guards and actions exactly as declared",
     "For every machine and event history the state machine takes the first transition of the current state, or else of its "
     "nearest ancestor, whose type and guard agree (else the exception's), descends into the entry state of a family, and "
     "runs the current state's exit, the transition's action and the new state's entry in that order, leaving out those that "
     "self loops, pushes and pops exclude. A transition that a callback or a failed allocation refuses leaves the state and "
     "the stack as they were; a transition without target leads to the error state; crossing continues with the new state. "
     "Current, previous, finished and the stack always tell the transitions taken, and a reset forgets them all.",
     "histories inputs",
     "all tables of a family of three states with up to two transitions each; every event history, to a fixpoint with stack depth 3, over machines whose transitions, guards, action results, resets and allocation failures are all enumerated",
     "The fsm example feeds one string.",
     "include/bfdev/fsm.h src/fsm.c",
     [("transition search", "src/fsm.c"), ("action order", "src/fsm.c")])

prop("C31", "Notifier chains call every listener in priority order until stopped",
     "Publishing an event calls exactly the registered listeners, in ascending order of their priority value, stops when one asks to, and "
     "reports the count and the last result; registration and removal take effect for exactly that listener in every history.",
     "histories",
     "every register/unregister/publish sequence over up to 4 listeners with every priority assignment and every return value",
     "The example registers two listeners.",
     "include/bfdev/notifier.h src/notifier.c",
     [("sorted registration", "src/notifier.c"), ("dispatch loop", "src/notifier.c")])

prop("C32", "Argument splitting gives exactly the words of the line",
     "Splitting a command line yields exactly its whitespace separated words, in order, with a correct count and a terminated vector; "
     "the whole result is one release away from being freed.",
     "inputs fault_sequences",
     "every string up to 7 characters over {letter, space, tab} and every allocation failure",
     "There is no test for argv.",
     "include/bfdev/argv.h src/argv.c",
     [("word scan", "src/argv.c")])

prop("C33", "Edit distance and matrix arithmetic are exact",
     "The weighted edit distance equals the minimum over all edit scripts for every pair of strings and weights; matrix "
     "operations give the exact algebraic result for every shape, and refuse incompatible shapes and those no memory can hold, changing nothing.",
     "inputs",
     "every pair of strings up to 4 letters over a 3 letter alphabet and a set of weights; every matrix shape up to 3x3 with small entries",
     "Examples compute single instances.",
     "include/bfdev/levenshtein.h src/levenshtein.c include/bfdev/matrix.h src/matrix.c",
     [("dynamic programming rows", "src/levenshtein.c"), ("matrix loops", "src/matrix.c")])

prop("C34", "Rate limiter and token bucket grant exactly their budget",
     "Over every history of requests, resets and clock values, zero, large, and backward steps included, the rate limiter "
     "passes exactly the first burst requests of each period, which begins with the first request after the last one ended, "
     "and counts the rest as missed. The token bucket starts full at its first request, gains a token for every interval "
     "since (or since the last update), never holds more than its capacity, and grants exactly while it holds one.",
     "histories inputs",
     "every history of 4-5 requests, resets and updates over 11 boundary clock steps, 6 starting times, 7 intervals and 5 capacities; small clocks to a fixpoint",
     "The examples use the real clock and print.",
     "include/bfdev/ratelimit.h src/ratelimit.c include/bfdev/tokenbucket.h src/tokenbucket.c include/bfdev/time.h",
     [("window restart", "src/ratelimit.c"), ("token refill", "src/tokenbucket.c")])

prop("C35", "Atomic operations are indivisible, once guards fire once",
     "Every atomic read-modify-write, exchange, compare-exchange and atomic bit operation behaves as one indivisible "
     "step with the documented return value for all operand values, under every interleaving, and touches nothing but "
     "the named word or bit. Code guarded by the once macros runs exactly once per guard on a thread, at the first true "
     "condition, and the macros return what they document.",
     "schedules inputs",
     "every interleaving of two to three threads running every mix of atomic word and bit operations; every boundary operand combination and every sequence of conditions sequentially",
     "The once example is single threaded; the atomics have no test.",
     "include/bfdev/atomic.h include/bfdev/cmpxchg.h include/bfdev/bitops.h include/bfdev/once.h include/bfdev/asm-generic/atomic.h include/bfdev/asm-generic/cmpxchg.h include/bfdev/asm-generic/bitops.h",
     [("compiler atomics", "include/bfdev/asm-generic/atomic.h"), ("exchange loops", "include/bfdev/asm-generic/cmpxchg.h"), ("bit operations on words", "include/bfdev/asm-generic/bitops.h")])

prop("C36", "Double word multiply and divide are exact",
     "The double word helpers return the exact sum, difference, product, quotient and remainder of two word numbers (wrapping like unsigned integers) for "
     "every operand combination their contract allows (nonzero divisor), with either result left out or stored over an operand, and write nothing else.",
     "inputs",
     "every combination of operands built from boundary half words (36 to 121 words per operand), divisors at every shift, dividends around every multiple of the divisor",
     "Not tested; only a few values pass through mpi.",
     "include/bfdev/dword.h src/dword.c",
     [("normalised long division", "src/dword.c")])

prop("C37", "Formatted output and log records honour size, level and record limits",
     "Bounded formatted printing stores the longest prefix of the output that fits, terminates it, and returns the number of "
     "characters stored, none for output that cannot be made. The level prefixes of a format select the level (the last one "
     "counts, the default level if there is none) and are not printed. A record is written, once, exactly if its level does "
     "not exceed the limit, as level name, colour, message and colour reset as the flags say, cut at the buffer's size and "
     "terminated; the writer gets its level, length and private data, and its result is returned. The default writer prints "
     "warnings and worse to stderr, the rest to stdout.",
     "inputs configurations",
     "every buffer size and length 0..40, failing conversions; every format prefix up to 5 characters; every level, default, limit and flag combination; messages around the buffer's size; all level macros and the default writer",
     "Log examples print to the console.",
     "include/bfdev/log.h include/bfdev/level.h src/log/log.c src/log/color.c src/log/level.c include/bfdev/scnprintf.h src/scnprintf.c",
     [("size clamp", "src/scnprintf.c"), ("level filter and prefix", "src/log/log.c")])

prop("C38", "Bloom filter: no false negatives, flush empties it, push tells presence",
     "An added element is reported as present until the filter is flushed; an element is reported as present only if each of "
     "its bits was set by an added element; a new or flushed filter reports nothing; push returns what peek would have before "
     "it. This holds for all capacities, hash functions and hash values, and a filter that cannot be made is refused.",
     "histories inputs",
     "every history of 5 pushes and flushes over 3 keys with every assignment of 4-8 hash values to keys and functions, 8 capacities; all elements of every capacity up to 200; creation of degenerate capacities and without memory",
     "The example adds one string.",
     "include/bfdev/bloom.h src/bloom.c",
     [("bit index of each hash", "src/bloom.c")])

prop("C39", "RC4 and pseudo random streams are the standard ones, for any chunking",
     "The RC4 stream equals the published cipher for every key length and any division into calls, also in place, and decrypts what it encrypted; "
     "the pseudo random generator produces the LFSR113 sequence of its seed, never degenerates, and depends on nothing but its state.",
     "inputs histories",
     "every key length 1..300 over five kinds of keys, every two way split of 300 bytes, every sequence of 4 calls of 8 boundary sizes, published vectors; 300000 seeds",
     "The arc4 example runs bandwidth only.",
     "include/bfdev/arc4.h src/crypto/arc4.c include/bfdev/prandom.h src/prandom.c",
     [("key schedule", "src/crypto/arc4.c"), ("state carried between calls", "src/crypto/arc4.c")])

prop("C40", "Debug checks accept every legal history and flag the misuses they cover",
     "With the debug options on, no legal operation sequence of the lists, trees, heaps, index lists, reference counters or the memory "
     "allocator raises an alarm. Adding an element right where it already is, deleting or freeing one twice, inserting at a list position whose "
     "links disagree, and using an index list with any corrupted ring link are reported and leave the container exactly as it was. "
     "A reference counter reports every use after zero, negative count and overflow, and nothing else.",
     "histories configurations",
     "every misuse at every position of every small list, tree and heap",
     "The tests never misuse a container.",
     "src/list-debug.c src/slist-debug.c src/hlist-debug.c src/rbtree-debug.c src/heap-debug.c",
     [("link validation", "src/*-debug.c")])

prop("C41", "ASCII character classes, case mapping and string helpers match their definition",
     "For every ASCII character each character class answers as in the C locale, in the constant and in the run time form alike, and case "
     "mapping changes letters only; toascii keeps the low seven bits. The difference functions name the first character (byte) of a string (memory) that is not the given one, if any; "
     "a duplicate is a terminated copy of the string, or of its first n characters, in memory of its own, refused without memory. "
     "Nothing outside the given string, bound or block is read or written.",
     "inputs",
     "every ASCII character in every class and both forms; every pair of strings up to 4-5 over three letters in exactly sized buffers, every bound, overlap and failed allocation",
     "The ctype and string functions are not tested.",
     "include/bfdev/ctype.h include/bfdev/string.h src/libc/ctype.c src/libc/string.c src/libc/strdup.c",
     [("class table and constant forms", "include/bfdev/ctype.h src/libc/ctype.c"), ("duplicates", "src/libc/strdup.c")])

prop("C42", "Hash functions are the published ones for every input",
     "The Jenkins hash equals lookup3's little endian hash for every length, alignment and initial value; the PJW string hash is the 32 bit PJW hash of "
     "the characters as unsigned bytes; an integer hash in b bits is the top b bits of the golden ratio product (so below 2^b), for all b from 1 to the word's width, and a table index is "
     "below the table's size. They read nothing outside their input and depend on nothing else.",
     "inputs",
     "every length 0..100 at every alignment, 6 kinds of contents and 7 initial values, every value of every byte up to 26 bytes; every string up to 6 over 8 boundary characters, ten kinds up to 300; every result width for every small and one or two bit word",
     "Examples print a few hashes; nothing checks them.",
     "include/bfdev/jhash.h src/jhash.c include/bfdev/stringhash.h src/stringhash.c include/bfdev/hash.h",
     [("lookup3 mixing", "src/jhash.c"), ("PJW fold", "src/stringhash.c"), ("golden ratio", "include/bfdev/hash.h")])

prop("C43", "The allocator front end passes every request to the right operation",
     "A request for memory reaches exactly one operation - the given allocator's, else the default's, else the C library's, chosen per operation - with the "
     "allocator's private data, the requested size and block, and its result is handed back unchanged. Empty requests give nothing and reach none; growing nothing allocates, shrinking to "
     "nothing frees; zeroed memory is zero; contents survive growth. An array whose size exceeds the address space is refused and an "
     "existing block is kept.",
     "histories configurations",
     "every history of 2-3 calls over 2 blocks with ordinary, empty and overflowing sizes, for 16 subsets of operations given in 4 ways, each operation failing or not",
     "Tests use the default allocator only.",
     "include/bfdev/allocator.h src/allocator.c include/port/allocator.h",
     [("operation selection", "src/allocator.c"), ("array sizes", "include/bfdev/allocator.h")])

prop("C44", "Error codes, error pointers, actions and scope guards do what they document",
     "Each error code has its documented number, name (with the sign of the number) and text, and no other number, of all ints, has one. An error pointer "
     "is recognised, apart from every other pointer, and gives back its code; null is invalid but no error. An action calls its current function with its current data and "
     "returns its result, or no data when cleared. A guarded object is released exactly once at the end of its scope unless it was taken away. A warning (bug) macro writes one log record, "
     "naming its place, exactly when its condition holds, evaluates it once, returns its truth, and then goes on (aborts).",
     "inputs histories",
     "every code, every int around zero and the limits (thorough: all 2^32), every boundary pointer and every pointer within 5000 of the error range, every history of 3 action operations, every guard use, every warning and bug macro against 8 conditions",
     "The errname example prints one list.",
     "include/bfdev/errno.h include/bfdev/errname.h src/errname.c include/bfdev/errptr.h include/bfdev/action.h include/bfdev/callback.h src/callback.c include/bfdev/guards.h include/bfdev/bug.h",
     [("sorted table and search", "src/errname.c"), ("error range", "include/bfdev/errptr.h")])

prop("C45", "Bit field, flag, byte order and structure helpers match their definition",
     "For every field of a word: get, prepare, greatest value and fits agree with shifting and masking, and fits is exact for values of any width. Each flag or byte order numbered bit operation changes exactly "
     "its bit in memory, atomic or not, and returns its old value where it says so. Min, max, clamp, swap, rounded division, "
     "word halves, size and limit constants have their mathematical value, evaluating arguments once. Container-of finds the structure of a member, and grouped members share their place.",
     "inputs histories",
     "every field of 8 to 64 bit words against 12000 values; every history of 2 of 7 operations on 12 flags; every of 17 operations on 128 bits in both byte orders; every triple of 25 numbers; all constants",
     "Not tested.",
     "include/bfdev/bitfield.h include/bfdev/bitflags.h include/bfdev/bitops-endian.h include/bfdev/minmax.h include/bfdev/math.h include/bfdev/macro.h include/bfdev/mhelper.h include/bfdev/uplower.h include/bfdev/struct.h include/bfdev/container.h include/bfdev/typecheck.h include/bfdev/size.h include/bfdev/limits.h include/bfdev/stringify.h",
     [("field macros", "include/bfdev/bitfield.h"), ("byte order swizzle", "include/bfdev/bitops-endian.h")])
prop("C46", "Every way of creating an object gives the same empty object",
     "Every component can be created in several ways: with its static initializer, with its initializer expression, with its defining macro inside a function or at file scope, or by calling its init function "
     "on memory that held anything before. All of them give the same empty object with the given parameters: any sequence of operations afterwards has the same results on it, "
     "whatever the memory held before. "
     "An object that has been released (or reset) is that empty object again.",
     "histories",
     "31 components, each creation form, every history of 4 to 10 operations in lock step with an object of the reference form built over garbage",
     "Tests create each object in one way, mostly the static one over zeroed memory, so a form that forgets a field stays unnoticed.",
     "include/bfdev/action.h include/bfdev/allocator.h include/bfdev/allocpool.h include/bfdev/array.h include/bfdev/btree.h include/bfdev/circle.h include/bfdev/fifo.h include/bfdev/fsm.h include/bfdev/hashmap.h include/bfdev/hashtbl.h include/bfdev/heap.h include/bfdev/hlist.h include/bfdev/ilist.h include/bfdev/list.h include/bfdev/slist.h include/bfdev/log.h include/bfdev/matrix.h include/bfdev/mpi.h include/bfdev/notifier.h include/bfdev/prandom.h include/bfdev/radix.h include/bfdev/ratelimit.h include/bfdev/rbtree.h include/bfdev/refcount.h include/bfdev/respool.h include/bfdev/ringbuf.h include/bfdev/tokenbucket.h",
     [("static initializers", "include/bfdev/notifier.h"), ("defining macros", "include/bfdev/fifo.h"), ("init functions", "include/bfdev/hashtbl.h")])

for _id in ("C02 C03 C04 C08 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C31").split():
    P[_id]["quantifier"]["text"] += "; further every population around 2^8, 2^10, 2^12 and 2^16, up to 70001, in every order of a family"
for _id in "C22 C23 C24 C26 C27 C28 C29 C32 C33 C37 C38 C39 C41 C42".split():
    P[_id]["quantifier"]["text"] += "; further lengths and sizes around 2^8, 2^12 and 2^16 in fixed families"
for _id in "C02 C04 C08 C11 C19 C20 C23 C24 C25 C26 C27 C28 C29 C32 C33 C38 C39 C41 C42".split():
    P[_id]["quantifier"]["text"] += "; further sizes around and beyond 2^32"
