#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text has one source)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ALLSEQ = ["histories", "schedules", "fault_sequences", "inputs"]
prop("C01", "Lazy queue: exact FIFO contents, with removed storage pooled and reused",
 "After any history of operations on lazy queues, interleaved with other tasks and with any allocations refused, each queue holds exactly the values of an ideal sequence under the same operations: pushed at the back or front, popped from the front once each and in order, rolled, inserted and erased, with emptiness, front, back, the before-end position and traversal all agreeing. "
 "Storage of removed elements is kept and reused by later insertions before new storage is asked for, holds no live element meanwhile, and is given back by an explicit cleanup or destruction. "
 "An insertion that was refused storage changes nothing except elements already inserted, and the queue stays fully usable.",
 ALLSEQ, "every sequence of queue operations on any number of queues by any number of tasks, every position of refused allocations and of cleanup calls, every reuse order of freed addresses",
 "test_lazy_queue.cpp runs one short fixed script with an allocator that never fails; pool state, tail position and refusals combine over histories it does not sample",
 ["ttl/lazy_queue.hpp", "ttl/slist_node.hpp"],
 [("tail pointer maintained by every insertion, removal and swap", "ttl/lazy_queue.hpp"), ("dead-node pool (get_node/put_node/cleanup)", "ttl/lazy_queue.hpp")],
 ["every public member of lazy_queue", "global operator new/delete", "element construction, copy and destruction"],
 [("live chain and tail", "the queued values and the last of them", "lazy_queue::head_, tail_"), ("dead chain", "pooled storage without live elements", "lazy_queue::dead_")])
prop("C02", "Linked lists behave as sequences; relinking moves elements, never loses them",
 "After any history of operations on doubly-linked, forward and backward lists, each list traversed forwards (and backwards where it supports that) yields exactly the values an ideal sequence would hold under the same operations, and its emptiness, size, first, last and end positions and operation results agree with it. "
 "Splicing, merging, swapping and reversing move the existing elements between positions or lists: none is copied, lost, duplicated or reordered beyond what the operation says, including for empty lists, whole lists, a list with itself, and values or positions that refer into the list being changed.",
 ALLSEQ, "every sequence of list operations over any number of lists and tasks, every refusal of an allocation, every legal position and range including empty and self-referring ones",
 "the list tests check fixed scripts of a few elements; boundary positions (empty, self, last) times history times refusals are not sampled",
 ["ttl/list.hpp", "ttl/forward_list.hpp", "ttl/backward_list.hpp", "ttl/slist_node.hpp"],
 [("circular doubly-linked node relinking", "ttl/list.hpp list_node"), ("single-linked relinking", "ttl/slist_node.hpp"), ("tail pointer", "ttl/backward_list.hpp")],
 ["every defined public member of list, forward_list and backward_list"])
prop("C03", "Growable vector holds exactly its logical contents through every reallocation",
 "After any history of operations, a vector holds exactly the values an ideal resizable array would hold under the same operations, contiguously and in order, with size, capacity, results and element access agreeing, whether an operation ran in place or moved the elements to new storage. "
 "An inserted, pushed or resize value that refers to an element of the vector itself has the effect of the value it had when the call was made. "
 "A growth that is refused storage leaves the vector usable with its previous elements, or with a prefix of the new ones for a whole-contents assignment.",
 ALLSEQ, "every sequence of vector operations by any number of tasks, every position of a refused allocation, every capacity slack, every self-referring argument, any reuse and content of raw memory",
 "test_vector.cpp covers one script with ints and a counter class; slack, aliasing and refused growth combine with history",
 ["ttl/vector.hpp", "ttl/vector_map.hpp"],
 [("insert_values: in-place shift or reallocate-and-copy", "ttl/vector.hpp"), ("reserve/resize", "ttl/vector.hpp")],
 ["every public member of vector", "global operator new/delete"])
prop("C04", "Fixed vector never exceeds its capacity, never allocates, truncates predictably",
 "A fixed-capacity vector never holds more than its capacity, never touches memory outside its own object and never asks for heap storage, whatever is done to it. "
 "After any history it holds exactly what an ideal array would hold under the same operations if each result is cut to the capacity from the end, with no live element left in the unused slots.",
 ALLSEQ, "every sequence of operations on fixed vectors of several capacities including self-referring arguments, counts far above capacity, and swaps of unequal sizes, under memory pressure in the rest of the program",
 "test_fixed_vector.cpp uses one capacity and a fixed script; overflow position times aliasing times unequal swaps is not sampled",
 ["ttl/fixed_vector.hpp"], [("full() bound in every insertion", "ttl/fixed_vector.hpp"), ("tail truncation in insert", "ttl/fixed_vector.hpp")],
 ["every public member of fixed_vector", "stores made by the library", "element construction and destruction"])
prop("C05", "Maps, sets and trees are exact ordered dictionaries through any history",
 "After any history of insertions and erasures, by key, range, subscript or copy, a map or set holds exactly the keys and values of an ideal ordered dictionary, traversed in key order in both directions, and the first value inserted for a key stays until erased or assigned. "
 "Lookup, count, lower and upper bound and equal range, for keys present or absent, all give the answer the ideal dictionary gives. "
 "The underlying tree used directly with equal keys keeps every one of them in insertion order and finds, counts and removes them one by one.",
 ALLSEQ, "every sequence of dictionary operations by any number of tasks, every key pattern, every refused allocation",
 "test_map/test_set/test_rbtree insert and erase fixed key lists; rebalancing paths depend on the whole history",
 ["ttl/map.hpp", "ttl/set.hpp", "ttl/rbtree.hpp", "ttl/utility.hpp"],
 [("left-leaning red-black insertion and deletion", "ttl/rbtree.hpp"), ("bidirectional iterators with a header sentinel", "ttl/map.hpp, ttl/set.hpp")],
 ["every defined public member of map, set and rbtree"])
prop("C06", "Flat maps: sorted vector map and vector map hold exact contents and lookups",
 "After any history of operations, a sorted vector map holds exactly the keys and values of an ideal ordered dictionary in key order, and a vector map holds exactly the sequence of pairs inserted, with lookup, count, bounds, subscript, access and size giving the answers of the ideal structure for keys present or absent. "
 "An insertion refused storage at any point leaves the map exactly as it was and fully usable, and growth from any preallocated capacity stays within the storage obtained.",
 ALLSEQ, "every sequence of operations on flat maps, every initial capacity, every refused allocation at any step of an insertion or copy",
 "test_sorted_vector_map.cpp and test_vector_map.cpp run fixed scripts; growth boundary times refusal is not sampled",
 ["ttl/sorted_vector_map.hpp", "ttl/vector_map.hpp", "ttl/vector.hpp"],
 [("binary search and insert_before", "ttl/sorted_vector_map.hpp"), ("linear key search", "ttl/vector_map.hpp")],
 ["every defined public member of sorted_vector_map and vector_map"])
prop("C07", "A refused allocation never damages a container",
 "If the allocator refuses any request made during a container operation (or an element's copy is refused memory in a node-based container), the operation ends with the refusal and every container involved is in a valid state: unchanged for a single-element insertion, otherwise its old contents plus the leading part of the new elements in place, or for a whole-contents assignment its old contents or part of the new ones. "
 "Nothing is leaked, destroyed twice or left half-built, a construction that was refused leaves no trace, and afterwards the container and all others keep working as if the refused part had not been requested.",
 ["fault_sequences", "histories", "schedules"], "every subset and position of refused allocations in every history of operations on every container, including repeated refusals and recovery",
 "no test ever makes an allocation fail",
 ["ttl/list.hpp", "ttl/forward_list.hpp", "ttl/backward_list.hpp", "ttl/lazy_queue.hpp", "ttl/rbtree.hpp", "ttl/map.hpp", "ttl/set.hpp", "ttl/vector.hpp", "ttl/sorted_vector_map.hpp", "ttl/vector_map.hpp"],
 [("allocate and construct before linking", "all node containers"), ("allocate before moving", "ttl/vector.hpp, ttl/sorted_vector_map.hpp")],
 ["global operator new (the fault point)", "container contents and element ledger after each operation"])
prop("C08", "Every element is destroyed exactly once and all memory is returned",
 "Over any history, every element object a container constructs is destroyed exactly once, no operation reads, writes, copies or compares an element or storage that is not alive, and no element is constructed over a live one. "
 "Between operations the elements alive are exactly the ones reachable through the containers, and once the containers are destroyed no element and no block of memory obtained by the library remains, each block having been released exactly once by the matching form.",
 ALLSEQ, "every sequence of operations on every container, every schedule of tasks sharing the heap, every refused allocation, every order of address reuse",
 "tests run without a memory checker and with few element types; lifetime errors need particular histories to show",
 ["ttl/vector.hpp", "ttl/fixed_vector.hpp", "ttl/list.hpp", "ttl/forward_list.hpp", "ttl/backward_list.hpp", "ttl/lazy_queue.hpp", "ttl/rbtree.hpp", "ttl/map.hpp", "ttl/set.hpp", "ttl/sorted_vector_map.hpp", "ttl/vector_map.hpp"],
 [("placement construction paired with explicit destruction", "ttl/vector.hpp, ttl/fixed_vector.hpp, ttl/lazy_queue.hpp"), ("new/delete of nodes", "node containers")],
 ["element lifecycle events", "global operator new/delete", "loads and stores made by the library"])
prop("C09", "References and iterators to surviving elements of node containers stay valid",
 "An iterator, pointer or reference to an element of a list, queue, map, set or tree keeps denoting that same element, at the same address and with the same value, through every operation by any task that does not remove that element, including insertion and erasure of others, splicing, merging, swapping, reversing and rebalancing, and it follows the element into the list it was moved to. "
 "Advancing such an iterator always reaches the element that is then next in order. "
 "In a vector, elements before an insertion point keep their addresses as long as the reserved capacity is not exceeded.",
 ["histories", "schedules", "fault_sequences"], "every history of operations between taking a handle and using it, by the same or other tasks, with refusals",
 "tests take iterators and use them at once; none holds one across other operations",
 ["ttl/list.hpp", "ttl/forward_list.hpp", "ttl/backward_list.hpp", "ttl/lazy_queue.hpp", "ttl/rbtree.hpp", "ttl/map.hpp", "ttl/set.hpp", "ttl/sorted_vector_map.hpp", "ttl/vector.hpp"],
 [("relinking nodes instead of copying values", "list_node, slist_node, rbtree_base")],
 ["iterators held across operations", "addresses of elements"])
prop("C10", "Concurrent readers and users of separate objects never interfere",
 "Tasks that only read the same container, or that operate on different containers, may run interleaved at any instruction: every read-only operation leaves the container and all memory other tasks can see unwritten, and no operation reads or writes state shared with an unrelated object. "
 "Every task therefore gets exactly the result it would get running alone, including for algorithms and bit sets run over private data.",
 ["schedules", "histories", "inputs"], "every interleaving, at the granularity of single loads, stores and branches, of read-only operations on shared containers and arbitrary operations on separate ones",
 "the tests are single-threaded programs",
 ["ttl/vector.hpp", "ttl/fixed_vector.hpp", "ttl/list.hpp", "ttl/forward_list.hpp", "ttl/backward_list.hpp", "ttl/lazy_queue.hpp", "ttl/map.hpp", "ttl/set.hpp", "ttl/rbtree.hpp", "ttl/sorted_vector_map.hpp", "ttl/vector_map.hpp", "ttl/algorithm.hpp", "ttl/bitset.hpp"],
 [("no static, cached or lazily updated state anywhere", "all headers")],
 ["loads and stores of the library to heap, object and global memory", "results of every operation"])
prop("C11", "Every operation ends in bounded work: logarithmic trees, constant queue ends",
 "Every operation on a valid container ends after a number of steps bounded by the sizes of the containers and ranges involved, after any history, including histories with refused allocations. "
 "Looking up, inserting or erasing one key in a map, set or tree takes a number of key comparisons logarithmic in the number of elements whatever the order of earlier insertions and erasures, and a lookup in a sorted vector map likewise. "
 "Pushing to or popping from the ends of lists and queues, inserting or erasing one list element at a known position, rolling, swapping two lists or queues, and taking from the end of a vector take a constant number of steps, independent of the length.",
 ["histories", "inputs", "fault_sequences"], "every history of insertions and erasures, every size, including adversarial monotone and alternating key orders",
 "tests check results of small fixed cases, never work done or balance after deletions",
 ["ttl/rbtree.hpp", "ttl/map.hpp", "ttl/set.hpp", "ttl/sorted_vector_map.hpp", "ttl/lazy_queue.hpp", "ttl/backward_list.hpp", "ttl/list.hpp", "ttl/forward_list.hpp", "ttl/vector_map.hpp"],
 [("red-black balance after insert and remove", "ttl/rbtree.hpp"), ("tail pointers", "ttl/lazy_queue.hpp, ttl/backward_list.hpp"), ("binary search", "ttl/sorted_vector_map.hpp")],
 ["comparator calls", "basic blocks executed by the library per operation"])
prop("C12", "Operations that need no new storage never ask for any, so they cannot fail",
 "Erasing, popping, clearing, splicing, merging, swapping, reversing, rolling, truncating, searching and traversing never ask the allocator for storage and so succeed however little memory is left. "
 "Neither does inserting within a vector's reserved capacity, any operation of a fixed vector, or inserting into a lazy queue as long as its pool of removed elements is not exhausted. "
 "Cleaning up lazy queues from a low-memory handler, at any moment the queue is not itself in use, releases their pooled storage so that a refused request can be retried.",
 ["fault_sequences", "histories", "schedules"], "every history leading to every container state, with every allocation request refused from that moment on, and with low-memory handlers run at any allocation",
 "no test runs out of memory or counts allocation requests",
 ["ttl/list.hpp", "ttl/forward_list.hpp", "ttl/backward_list.hpp", "ttl/lazy_queue.hpp", "ttl/rbtree.hpp", "ttl/map.hpp", "ttl/set.hpp", "ttl/vector.hpp", "ttl/fixed_vector.hpp", "ttl/sorted_vector_map.hpp"],
 [("relinking", "list_node, slist_node"), ("in-place insertion and erasure", "ttl/vector.hpp, ttl/fixed_vector.hpp"), ("dead-node pool", "ttl/lazy_queue.hpp")],
 ["requests reaching global operator new, per operation"])
prop("C13", "Copies and assignments are exact independent snapshots, self-assignment included",
 "A container copy-constructed or assigned from another equals it element for element in the same order, shares no element or storage with it, and from then on changes to or destruction of either never show in the other. "
 "The source is unchanged, the previous contents of an assigned container are destroyed, and assigning a container to itself leaves its contents as they were.",
 ALLSEQ, "every pair of container states reached by any history, every later history on either side by any task, every refused allocation during the copy",
 "tests copy small fresh containers and compare once; they never mutate or destroy one side afterwards, nor self-assign",
 ["ttl/vector.hpp", "ttl/fixed_vector.hpp", "ttl/list.hpp", "ttl/forward_list.hpp", "ttl/backward_list.hpp", "ttl/lazy_queue.hpp", "ttl/rbtree.hpp", "ttl/map.hpp", "ttl/set.hpp", "ttl/sorted_vector_map.hpp", "ttl/vector_map.hpp"],
 [("copy constructors and operator=", "all containers"), ("structural tree copy", "ttl/rbtree.hpp")],
 ["contents and addresses of both containers after the copy and after later operations"])
prop("C14", "Algorithms compute the specified function of their input ranges",
 "Searching, counting, comparing, copying, transforming, removing, reversing, binary-search, set, min/max and numeric algorithms return what their standard counterparts specify for every input range.",
 ["inputs"], "all input ranges and predicates", "tests sample fixed arrays",
 ["ttl/algorithm.hpp", "ttl/numeric.hpp"], [("direct loops over iterators", "ttl/algorithm.hpp")], ["return values and output ranges"])
prop("C15", "Bit sets behave as arrays of bits under all operators",
 "Bit set construction, conversion, shifts, logic operators, counting, testing and element references agree with an ideal array of bits of that width.",
 ["inputs"], "all bit patterns, widths and shift counts", "tests sample fixed patterns", ["ttl/bitset.hpp"],
 [("word-array arithmetic with a masked last word", "ttl/bitset.hpp")], ["return values"])
prop("C16", "Compile-time and value utilities have the standard meaning",
 "Pairs, arrays, function objects, type traits, min/max, swap and countof behave as their standard counterparts.",
 ["inputs", "programs"], "all values and all types they are instantiated with", "tests sample a few types",
 ["ttl/utility.hpp", "ttl/array.hpp", "ttl/functional.hpp", "ttl/type_traits.hpp"], [("templates", "those headers")], ["types and values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
