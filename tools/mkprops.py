#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (keeps them in step)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "gmlc/containers/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[G + f for f in files], mech=mech, observe=observe, technique=technique,
                  note=note, level=level, state=state or []))

SEQ = "ASan+UBSan monitored state-machine fuzzing against an executable reference model"
CON = "controlled-schedule execution (fibers) with recorded history and offline linearizability/liveness checker"
THR = "ThreadSanitizer/ASan monitored real-thread stress with offline history checker"
SEQNOTE = ("Random and coverage-guided operation sequences on the real headers, every step compared with a model written "
           "from the documented behaviour, under AddressSanitizer and UndefinedBehaviorSanitizer; shows absence of violations "
           "only on the executed sequences. Trusts the model, clang and libstdc++.")
CONNOTE = ("Real headers compiled against a scheduler-controlled std::mutex/condition_variable/atomic/thread; each run executes "
           "many seeded schedules (random walk, sticky, PCT) with injected spurious wakeups, failed try_lock/CAS and logical "
           "timeouts, and an offline checker decides each recorded history. Sequentially consistent interleavings only; weak-memory "
           "effects are left to the race detector.")

prop("S01", "Stack buffer hands blocks back intact, last in first out",
  "For every sequence of pushes, pops, reversals, clears and resizes, a successful pop from a stack buffer (owning or on caller-supplied memory) returns exactly the bytes and length of the block on top: the most recently pushed block still stored, where a reversal exactly inverts the order of the blocks then stored. The block count, the emptiness test and the reported next block size always describe the blocks still stored.",
  ["inputs", "histories"], "all block sizes, capacities and operation sequences of push/pop/reverse/clear/resize on both buffer classes",
  "The tests use a handful of fixed capacities and short scripts; interleavings of reverse, partial pops and resize with data present are not exercised with content checks.",
  ["StackBuffer.hpp"], [dict(name="index growing down from the end, data growing up", where="StackBufferRaw::push/pop/reverse"), dict(name="index relocation", where="StackBuffer::resize")],
  ["return values of push/pop/nextDataSize/getCurrentCount/empty and popped bytes"], SEQ, SEQNOTE)
prop("S02", "Stack buffer accepts what fits, refuses the rest, never overruns its memory",
  "A push on a stack buffer succeeds exactly when the space query says it fits, and whenever the bytes in use plus fixed per-block bookkeeping leave room; it is refused for empty or null blocks and whenever the stored blocks would no longer fit. A refused push, a pop into too small a destination (which returns minus the needed size) and a refused resize change nothing, and a successful resize keeps the blocks and makes exactly the new capacity usable. No operation reads or writes outside the memory the buffer was given, whatever its size or alignment.",
  ["inputs", "histories"], "all capacities (including tiny, odd and misaligned memory), block sizes and operation sequences",
  "Tests check a few capacities that are multiples of the bookkeeping size and never push after resizing a non-empty buffer.",
  ["StackBuffer.hpp"], [dict(name="space computation", where="StackBufferRaw::isSpaceAvailable"), dict(name="shrink refusal", where="StackBuffer::resize")],
  ["guard bytes around caller-supplied memory, sanitizer reports, accept/refuse decisions"], SEQ, SEQNOTE)
prop("S03", "Circular buffer hands blocks back intact in first-in-first-out order",
  "For every sequence of pushes, pops, clears and resizes, a circular buffer (owning or on caller-supplied memory) delivers each accepted block exactly once, byte for byte and in the order of acceptance, across any number of wrap-arounds. The emptiness test and reported next block size always describe the oldest block still stored, and an empty buffer yields nothing.",
  ["inputs", "histories"], "all capacities, block sizes and operation sequences, in particular every alignment of the wrap-around point",
  "Wrap-around has boundary cases at every distance from the end of the memory; tests visit only a few of them.",
  ["CircularBuffer.hpp"], [dict(name="wrap marker and pointer wrap", where="CircularBufferRaw::push/pop/nextDataSize"), dict(name="segment relocation", where="CircularBuffer::resize")],
  ["return values and popped bytes"], SEQ, SEQNOTE)
prop("S04", "Circular buffer accepts what fits, refuses the rest, never overruns its memory",
  "A push on a circular buffer succeeds exactly when the space query says it fits, never overwrites a stored block and is refused for empty or null blocks; an empty buffer (new, cleared or drained) accepts any single block up to its capacity less the fixed per-block overhead, and space freed by popping becomes usable again. A refused push, a pop into too small a destination (which returns minus the needed size) and a refused resize change nothing. No operation reads or writes outside the memory the buffer was given.",
  ["inputs", "histories"], "all capacities, block sizes and operation sequences including tiny buffers",
  "Only a few capacities and fill patterns are tested; the failing patterns depend on exact distances to the end of memory and to the read position.",
  ["CircularBuffer.hpp"], [dict(name="space computation", where="CircularBufferRaw::isSpaceAvailable/push"), dict(name="shrink refusal", where="CircularBuffer::resize")],
  ["guard bytes, sanitizer reports, accept/refuse decisions"], SEQ, SEQNOTE)
prop("S05", "Buffers copy, move, swap and resize as independent values",
  "Copying or copy-assigning a stack or circular buffer in any state (default constructed, empty, partially filled, wrapped, resized) gives an independent buffer with the same blocks, order and capacity; moving or swapping transfers them and leaves the moved-from buffer empty, destructible, assignable and resizable. Resizing up or down never loses, reorders or corrupts stored blocks, and a resize that cannot hold them throws and changes nothing, like a copy or resize that runs out of memory. Every allocation is freed exactly once.",
  ["inputs", "histories"], "all states reachable by operation sequences over several buffer objects, and all target sizes",
  "Tests copy and move a few hand-picked states, and check little beyond the next pop.",
  ["StackBuffer.hpp", "CircularBuffer.hpp"], [dict(name="pointer rebasing in copy/move", where="copy/move constructors and assignments of StackBuffer and CircularBuffer"), dict(name="resizeMemory", where="StackBuffer::resizeMemory, CircularBuffer::resizeMemory")],
  ["popped bytes of every object, LeakSanitizer/ASan reports"], SEQ, SEQNOTE)

prop("B01", "Stable block vector behaves as a sequence grown and shrunk at the back",
  "For every element type, block size and sequence of push_back, emplace_back, pop_back, clear, assign, shrink_to_fit, copy and move operations, a stable block vector has the same size, emptiness, elements at every index, front, back and iteration order as a standard vector given the same operations; pushing an element stores a copy of it whatever its type. Constructing or assigning a given number of copies yields exactly that many equal elements.",
  ["inputs", "histories"], "all element counts (in particular multiples of the block size and table-growth sizes), block sizes and operation histories",
  "Tests use fixed counts and few block sizes; boundary behaviour depends on counts relative to block size, recycled blocks and pointer-table growth.",
  ["StableBlockVector.hpp"], [dict(name="block table and in-block index", where="StableBlockVector::blockCheck/moreData/freeLastBlock"), dict(name="indexing", where="StableBlockVector::operator[]")],
  ["all accessors after each operation"], SEQ, SEQNOTE)
prop("B02", "Stable block deque behaves as a double-ended sequence",
  "For every element type, block size and sequence of pushes and pops at both ends, clear, assign, shrink_to_fit, copy and move operations, a stable block deque has the same size, emptiness, elements at every index, front, back and iteration order as a standard deque given the same operations, starting from any way of constructing it (default, sized, copied, moved).",
  ["inputs", "histories"], "all interleavings of front and back operations, element counts and block sizes",
  "Front and back block allocation, recycling and table re-centring interact; tests run a few one-directional scripts.",
  ["StableBlockDeque.hpp"], [dict(name="front/back block bookkeeping", where="StableBlockDeque::blockCheckFront/blockCheckBack"), dict(name="indexing", where="StableBlockDeque::operator[]")],
  ["all accessors after each operation"], SEQ, SEQNOTE)
prop("B03", "Elements never move while they stay in a stable container",
  "A reference or pointer to an element of a stable block vector or deque stays valid and keeps referring to the same element through every later push, emplace or pop at either end, shrink_to_fit, move or swap of the container, until that element itself is removed. The same holds for elements of mapped containers declared stable and for objects held by pointer-mapped containers.",
  ["inputs", "histories"], "all growth and shrink histories, including table reallocation and recycling of freed blocks",
  "Tests compare a few addresses over short growth; stability must survive every later operation.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp", "MapTraits.hpp", "MappedPointerVector.hpp", "DualMappedPointerVector.hpp"],
  [dict(name="fixed-size blocks with a pointer table", where="StableBlockVector/StableBlockDeque"), dict(name="stable storage selection", where="MapTraits.hpp")],
  ["address recorded at insertion compared after each operation, ASan"], SEQ, SEQNOTE)
prop("B04", "Block containers construct, destroy and free everything exactly once",
  "Over any history, a stable block vector or deque constructs each element once and destroys it exactly once, never touches storage of destroyed or never-constructed elements, returns every allocation with the right size, and holds no memory after destruction. An exception from an element constructor or from the allocator propagates to the caller and leaves the container with its previous elements, usable and destructible. Removing elements (pops, clear) needs no memory and never fails.",
  ["inputs", "histories", "fault_sequences"], "all histories and every position of a throwing constructor or allocation",
  "No test injects a failure or counts constructions and destructions.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp"], [dict(name="destroy loops", where="clear/pop_back/pop_front"), dict(name="block recycling", where="freeLastBlock/getNewBlock/shrink_to_fit")],
  ["registry of live element addresses, ledger of allocations, LeakSanitizer"], SEQ + " with constructor/allocator fault injection", SEQNOTE, "exploration")
prop("B05", "Iterators of block containers visit each element once and move consistently",
  "From any state of a stable block vector or deque, stepping begin to end visits every element exactly once in index order, through const and non-const iterators; increments, decrements and jumps by any positive or negative distance that stays in range land on the same element as indexing, and iterators compare equal exactly when they denote the same position. Standard algorithms that rely on the advertised iterator category give the same result as on a plain vector.",
  ["inputs", "histories"], "all element counts, block sizes, front offsets and jump distances",
  "Tests iterate full sequences and a few fixed jumps; boundary crossings depend on the position inside the block and the sign of the jump.",
  ["BlockIterator.hpp", "StableBlockVector.hpp", "StableBlockDeque.hpp"], [dict(name="boundary crossing", where="BlockIterator::check/checkNeg/operator+=/operator-=")],
  ["dereferenced addresses versus operator[] addresses"], SEQ, SEQNOTE)
prop("B06", "Copies and moves of block containers are independent and reusable",
  "Copying a stable block vector or deque in any state gives an equal container that shares nothing with the original; moving one transfers the elements without relocating them and leaves a moved-from container that is empty and can be destroyed, queried, cleared, assigned or filled again. Assignment over a container that already holds elements releases the old ones exactly once.",
  ["inputs", "histories"], "all source and target states: never used, emptied, with recycled blocks, cleared, after shrink, moved-from",
  "Tests copy and move only freshly filled containers and do not reuse moved-from ones.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp"], [dict(name="copy and move constructors/assignments", where="StableBlockVector, StableBlockDeque")],
  ["contents of all live objects after each operation, element registry, allocation ledger"], SEQ, SEQNOTE)

prop("M01", "Single-key mapped containers keep names and elements consistent",
  "For every history of insertions (with or without a search term, duplicate terms, emplaced or replaced elements, added aliases) on the single-key mapped vector, string-keyed vector and pointer vector, looking up a term yields exactly the element that term was given to, unknown terms yield nothing, a duplicate term is refused without changing anything (an object offered by pointer stays with the caller), and indices, size, iteration and transform show the elements in insertion order. An insertion whose element constructor throws changes nothing; one that runs out of memory changes nothing beyond its own element and terms.",
  ["inputs", "histories"], "all operation histories over all key values (including empty, default and long keys), storage policies and key-map policies",
  "Tests use a few distinct keys in straight-line scripts; consistency of two structures depends on history and key collisions.",
  ["MappedVector.hpp", "StringMappedVector.hpp", "MappedPointerVector.hpp", "MapTraits.hpp"],
  [dict(name="element storage plus term-to-index map", where="insert/find/addSearchTerm/insert_or_assign")],
  ["find/operator[]/size/iteration after each operation for every key of the domain"], SEQ, SEQNOTE)
prop("M02", "Dual-key mapped containers keep both kinds of keys consistent",
  "For every history of insertions with two, one or no search terms, replacement insertions and added aliases on the dual mapped vector, dual string mapped vector and dual mapped pointer vector, looking up a term of either kind yields exactly the element it was given to, unknown terms yield nothing, and an insertion whose terms are all taken is refused without changing anything (an object offered by pointer stays with the caller). Indices, size, iteration and transform show the elements in insertion order. An insertion whose element constructor throws changes nothing; one that runs out of memory changes nothing beyond its own element and terms.",
  ["inputs", "histories"], "all operation histories over both key domains, including one-sided insertions and collisions on one key only",
  "Tests use a few distinct key pairs in straight-line scripts.",
  ["DualMappedVector.hpp", "DualStringMappedVector.hpp", "DualMappedPointerVector.hpp"],
  [dict(name="two term-to-index maps over one storage", where="insert/insert_or_assign/find/addSearchTerm")],
  ["find by either key/operator[]/size/iteration after each operation"], SEQ, SEQNOTE)
prop("M03", "Removal from mapped containers leaves no stale or misdirected key",
  "After removing an element by index or by any of its search terms, no remaining term of any kind finds the removed element, every other term finds the same element as before, and the order of the other elements is kept; in shrinking containers their indices close up, in stable containers indices and addresses of the others do not change. Removing an unknown term or out-of-range index changes nothing, and clear removes every element and every term. Without memory a removal is either done completely or changes nothing.",
  ["inputs", "histories"], "all histories mixing insertions, aliases and removals by index or by either key kind",
  "Tests remove one element from small containers whose elements have exactly one term each.",
  ["MappedVector.hpp", "StringMappedVector.hpp", "MappedPointerVector.hpp", "DualMappedVector.hpp", "DualStringMappedVector.hpp", "DualMappedPointerVector.hpp"],
  [dict(name="index fix-up after erase", where="removeIndex/remove in each mapped container")],
  ["find for every key of the domain, size, elements after each removal"], SEQ, SEQNOTE)
prop("M04", "Copied and moved mapped containers are complete and independent",
  "A copy of a copyable mapped container finds the same elements under the same terms, and stays correct when the original is later changed or destroyed; a moved-to container has everything the source had, and the source can be destroyed, cleared or assigned. Changing one object never affects another.",
  ["inputs", "histories"], "all container states, followed by any operations on and destruction of either object",
  "Tests check a moved container once; copies of string-keyed containers and destruction of the original are not exercised.",
  ["StringMappedVector.hpp", "DualStringMappedVector.hpp", "MappedVector.hpp", "DualMappedVector.hpp", "MappedPointerVector.hpp", "DualMappedPointerVector.hpp"],
  [dict(name="copy/move members; string views into owned names", where="StringMappedVector, DualStringMappedVector")],
  ["full lookup table of every live object, ASan"], SEQ, SEQNOTE)
prop("M05", "Map helper lookups return the stored value or the stated default",
  "For any ordered or unordered map and any key, the map search helper returns the value stored under that key when present, otherwise the supplied default or, without a default, an empty optional; it never modifies the map and never confuses keys.",
  ["inputs"], "all map types, contents, keys and default values",
  "Tests use two small maps.",
  ["mapOps.hpp"], [dict(name="mapFind and friends", where="mapOps.hpp")],
  ["returned values/addresses versus the map"], SEQ, SEQNOTE)

prop("Q01", "Simple queue delivers every pushed element exactly once, in order",
  "Under any number of concurrent producers and consumers using push, emplace, bulk push and pop on the simple queue, every element whose push completed is popped at most once, none is lost or invented, and the order is that of a single first-in-first-out queue consistent with real-time order; a bulk push keeps its elements in order. A pop reports empty only if the queue was empty at some moment during the call.",
  ["schedules", "histories", "inputs"], "all thread schedules and operation mixes",
  "Tests run a few fixed multi-thread scripts once and check only totals; the pull/push list swap has windows that need particular interleavings.",
  ["SimpleQueue.hpp"], [dict(name="two-list queue with ordered pull/push locks and element-empty flag", where="SimpleQueue::push/pop/checkPullandSwap")],
  ["recorded invocation/response history of unique values"], CON + "; TSan/ASan real threads", CONNOTE)
prop("Q02", "Simple queue observers, clear and move agree with its contents",
  "On the simple queue, empty, size and peek always report a state the queue actually had during the call, a quiet queue reports exactly its contents, clear removes exactly what was present, reserve and failing pushes change nothing, and move construction or assignment transfers all elements in order and releases the old ones.",
  ["schedules", "histories", "inputs"], "all schedules and sequences mixing observers, bulk pushes (also empty ones), clear, reserve and moves with pushes and pops",
  "Tests read observers only at rest after simple scripts.",
  ["SimpleQueue.hpp"], [dict(name="queueEmptyFlag maintenance", where="SimpleQueue::empty/size/peek/clear/pushVector/move members")],
  ["observer results inside linearizability histories and sequential model comparison"], CON + "; sequential model", CONNOTE)
prop("Q03", "Blocking queue delivers every pushed element exactly once, in order",
  "Under any number of concurrent producers and consumers using push, emplace, pop, timed pop, callback pop and try_pop on the blocking queue, every element pushed is delivered at most once, none is lost or invented, and delivery order is that of a single first-in-first-out queue consistent with real-time order. A try_pop or expired timed pop returns nothing only if the queue was empty at some moment during the call.",
  ["schedules", "histories", "inputs"], "all thread schedules, spurious wakeups and operation mixes",
  "The existing blocking-queue tests hang at random (they are excluded as unstable) and check only sums of values.",
  ["BlockingQueue.hpp"], [dict(name="two-list queue with empty flag hand-over", where="BlockingQueue::push/emplace/pop/try_pop/checkPullAndSwap")],
  ["recorded invocation/response history of unique values"], CON + "; TSan/ASan real threads", CONNOTE)
prop("Q04", "A blocked consumer never sleeps on a non-empty blocking queue",
  "No schedule of producers and consumers on the blocking queue reaches a state where a consumer stays blocked in pop or callback pop while an element is available and nothing else can run, and no mix of its operations deadlocks. Elements assigned to a queue in use wake its waiting consumers like pushed ones, and a push that fails disturbs nobody.",
  ["schedules"], "all thread schedules including spurious wakeups, any number of consumers and prior operations",
  "A lost wakeup needs one precise interleaving; the tests only notice it as a rare hang.",
  ["BlockingQueue.hpp"], [dict(name="empty flag checked under pull lock before notify", where="BlockingQueue::push/emplace/pop")],
  ["scheduler state: blocked fibers versus pushes/pops recorded"], CON, CONNOTE)
prop("Q05", "Timed and callback pops honour their contract",
  "On both blocking queues a timed pop returns an element as soon as one is available and otherwise returns nothing, not before its timeout has elapsed; a callback pop calls its callback exactly when the queue is found empty, at least once before blocking on an empty queue and never while the queue's locks are held, so that the callback may itself push, and then returns an element.",
  ["schedules", "inputs", "histories"], "all timeouts, schedules and callbacks (including ones that push)",
  "Tests use one timeout value and one callback script.",
  ["BlockingQueue.hpp", "BlockingPriorityQueue.hpp"], [dict(name="wait_for loops and callback invocation outside locks", where="pop(timeout), popOrCall")],
  ["logical clock and callback event log"], CON, CONNOTE)
prop("Q06", "Blocking priority queue: exactly once, priority first, FIFO per class",
  "Under any concurrent mix of push, emplace, pushPriority, emplacePriority and all pops on the blocking priority queue, every element is delivered at most once, none is lost or invented, a pop takes a normal element only when no priority element was pending at that moment, and elements of each class come out in the order of a single first-in-first-out queue consistent with real-time order.",
  ["schedules", "histories", "inputs"], "all thread schedules and operation mixes",
  "The existing tests of this class are excluded as unstable and check sums or one-thread order.",
  ["BlockingPriorityQueue.hpp"], [dict(name="priority list checked first under the pull lock", where="BlockingPriorityQueue::pushPriority/pop/try_pop/checkPullAndSwap")],
  ["recorded invocation/response history of unique values"], CON + "; TSan/ASan real threads", CONNOTE)
prop("Q07", "A blocked consumer never sleeps on a non-empty blocking priority queue",
  "No schedule of normal and priority producers and consumers on the blocking priority queue reaches a state where a consumer stays blocked in pop or callback pop while a normal or priority element is available and nothing else can run, and no mix of its operations deadlocks. Elements assigned to a queue in use wake its waiting consumers like pushed ones, and a push that fails disturbs nobody.",
  ["schedules"], "all thread schedules including spurious wakeups, any number of consumers and prior operations",
  "A lost wakeup needs one precise interleaving of the empty flag with normal and priority pushes.",
  ["BlockingPriorityQueue.hpp"], [dict(name="empty flag shared by normal and priority lists", where="BlockingPriorityQueue::push/pushPriority/pop")],
  ["scheduler state: blocked fibers versus recorded pushes/pops"], CON, CONNOTE)
prop("Q08", "Blocking queue observers, clear, reserve and moves agree with contents",
  "On the blocking queue and blocking priority queue, a quiet queue reports emptiness, size and peeked front element exactly as its contents are after any history; during concurrent use they only report an emptiness, front element or size the queue had at some moment of the call. Clear removes exactly what was present, reserve and failing pushes change nothing, and moving transfers every element in order.",
  ["schedules", "histories", "inputs"], "all sequential histories and, for the positive reports, all schedules",
  "Tests read observers after one or two scripts; the cached empty flag is wrong only after particular histories.",
  ["BlockingQueue.hpp", "BlockingPriorityQueue.hpp"], [dict(name="queueEmptyFlag maintenance", where="checkPullAndSwap, empty, size, try_peek, clear, move members")],
  ["observer results versus model at rest and inside histories"], CON + "; sequential model", CONNOTE)
prop("Q09", "Queues own each element once: no leak, double destroy or needless copy",
  "Every element handed to any of the queues is moved or copied in once, lives until it is popped, cleared or the queue is destroyed, and is then destroyed exactly once; move-only and pointer-like element types arrive intact, and destroying or clearing a queue releases everything still inside.",
  ["inputs", "histories", "schedules"], "all element types, operation histories and queue end states",
  "Tests use mostly ints and one unique_ptr script and never count object lifetimes.",
  ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp"], [dict(name="vector-backed lists moved between push and pull sides", where="push/pop/clear/destructors")],
  ["live-object registry, ASan/LeakSanitizer"], SEQ + "; TSan/ASan real threads", SEQNOTE)
prop("A01", "Air lock hands each value over exactly once and holds at most one",
  "Under any number of concurrent loaders and unloaders an air lock behaves as a one-place buffer: a successful load puts exactly one value in, a successful unload takes exactly that value out once, a load is refused only while a value is inside and an unload only while none is, and isLoaded reports a state that held during the call. A refused try-load leaves the caller's value with the caller.",
  ["schedules", "histories"], "all schedules of load, try_load, try_unload and isLoaded",
  "The test exchanges values between two threads once.",
  ["AirLock.hpp"], [dict(name="loaded flag with mutex and condition", where="AirLock::load/try_load/try_unload")],
  ["recorded history checked against a one-place buffer"], CON + "; TSan/ASan real threads", CONNOTE)
prop("A02", "A loader blocked on an air lock proceeds once the value is taken",
  "A blocking load on an occupied air lock waits until the value inside has been taken and then always completes: no schedule leaves a loader blocked on an empty air lock, overwrites the value inside, or deadlocks.",
  ["schedules"], "all schedules including spurious wakeups and several blocked loaders",
  "A lost wakeup needs one precise interleaving that a single test run almost never shows.",
  ["AirLock.hpp"], [dict(name="notify on unload, predicate wait on load", where="AirLock::load/try_unload")],
  ["scheduler state: blocked fibers versus recorded loads/unloads"], CON, CONNOTE)
prop("R01", "Queues and air lock are free of data races",
  "Any operations of the simple queue, blocking queue, blocking priority queue and air lock may be called concurrently from any threads without a data race, deadlock or lock-order inversion inside the containers, and what a producer wrote before handing an element over is visible to the consumer that receives it.",
  ["schedules"], "all pairs of concurrently callable operations and all schedules",
  "Races are invisible to assertions; the test suite is not run under a race detector.",
  ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp"], [dict(name="pull/push mutex pair and atomic empty flag", where="all queue operations")],
  ["ThreadSanitizer happens-before reports"], "ThreadSanitizer (happens-before race and lock-order detection) over controlled and free-running schedules",
  "Happens-before race detection over every executed pair of operations, both on real threads and on controlled fiber schedules; races between operations that never ran unordered in any explored schedule are not seen.")
prop("R02", "Work queue and work blocks are free of data races",
  "Adding work, executing it, polling or waiting for completion, fetching results, querying the queue and destroying it from different threads involve no data race or lock-order inversion, and effects of a work block are visible to whoever observes it finished.",
  ["schedules"], "all pairs of documented concurrent uses and all schedules",
  "Races are invisible to assertions; the test suite is not run under a race detector.",
  ["WorkQueue.hpp"], [dict(name="completion flag and future", where="WorkBlock::execute/isFinished"), dict(name="queue mutex/condition", where="WorkQueue")],
  ["ThreadSanitizer happens-before reports"], "ThreadSanitizer (happens-before race and lock-order detection) over controlled and free-running schedules",
  "Happens-before race detection over executed schedules only, on real threads and on controlled fiber schedules.")
prop("W01", "Every work block given to a work queue runs exactly once",
  "Every block added to a work queue, singly or in a batch and at any priority, by any number of threads and with any number of workers (including none, where it runs in the calling thread), is executed exactly once, and already finished blocks and null blocks are skipped without harm. While nothing changes, the reported block count and emptiness describe exactly the work still waiting.",
  ["schedules", "histories", "configurations"], "all worker counts, priorities, batch sizes and schedules",
  "Tests add a few blocks and wait; loss or duplication depends on schedules and on batches mixing finished or null blocks.",
  ["WorkQueue.hpp"], [dict(name="per-priority queues and worker loop", where="WorkQueue::addWorkBlock/workerLoop/getWorkBlock")],
  ["execution counter per block, unique ids"], CON + "; TSan/ASan real threads", CONNOTE)
prop("W02", "Work queue serves priorities in the configured order",
  "With a single worker, pending high-priority blocks run before pending medium and low ones, blocks of the same priority run in the order they were added, and while both medium and low blocks are pending the configured ratio of medium blocks runs for each low block, so that neither class starves; when one class runs out the other is served without gap.",
  ["histories", "inputs"], "all sequences of additions at all priorities and all ratios",
  "The test checks one ratio and one batch, with tolerance.",
  ["WorkQueue.hpp"], [dict(name="priority selection with medium/low counter", where="WorkQueue::getWorkBlock"), dict(name="ratio setting", where="WorkQueue::setPriorityRatio")],
  ["order of execution recorded while the queue is gated"], CON + " and priority-order model", CONNOTE)
prop("W03", "Shutting a work queue down finishes running work and never hangs",
  "Closing or destroying a work queue lets the work already running finish, returns without waiting for a polling period, for any schedule and any amount of pending work (which is dropped), joins every worker, and once it has returned nothing executes or waits any more. Nothing is executed twice because of it.",
  ["schedules", "histories"], "all schedules of additions and shutdown with any number of workers",
  "Tests destroy idle or nearly idle queues.",
  ["WorkQueue.hpp"], [dict(name="halt flag, wake-up and join", where="WorkQueue::closeWorkerQueue and destructor")],
  ["scheduler deadlock detection, execution counters after join"], CON + "; TSan/ASan real threads", CONNOTE)
prop("W04", "A work block delivers its result or exception once finished",
  "A work block built from any callable, with or without a result, reports unfinished before it has run, runs its callable exactly once however often it is executed, then reports finished and delivers exactly the callable's result or exception through its future to whoever asks or waits; after a reset or a new task it can run again, and default-constructed, moved and moved-from blocks are safe to query, assign and destroy.",
  ["inputs", "histories"], "all callables (returning, void, throwing), and operation histories of execute, reset, update, move, wait",
  "Tests cover one successful int block and one void block.",
  ["WorkQueue.hpp"], [dict(name="packaged task plus future", where="WorkBlock::execute/reset/updateWorkFunction/getReturnVal/wait")],
  ["call counter, returned values and exceptions versus model"], SEQ, SEQNOTE)
prop("W05", "An idle worker picks up new work without waiting for its poll period",
  "When work is added to a work queue whose workers are idle or about to become idle, a worker is woken and starts it without waiting for a periodic timeout, in every schedule; a batch added at once is likewise fully served.",
  ["schedules"], "all schedules around a worker going idle while work is being added",
  "A missed notification only shows as a five-second stall in a narrow window.",
  ["WorkQueue.hpp"], [dict(name="notify on add, emptiness re-check before sleeping", where="WorkQueue::addWorkBlock/workerLoop")],
  ["scheduler state: worker in timed sleep while work pending and nothing else runnable"], CON, CONNOTE)

CLAIMED = None  # None = all
NA = {}

def main():
    claimed_file = os.path.join(ROOT, "tools", "claimed.txt")
    claimed = set(open(claimed_file).read().split()) if os.path.exists(claimed_file) else set()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in claimed:
            checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                thorough_cmd=f"python3 check.py {p['id']} --thorough",
                evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: every monitor works at the public API or by substituting the std synchronisation types at compile time in /verif's own build.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

main()
