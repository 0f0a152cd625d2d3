#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})
CB = ["src/circular_buffer/circular.rs"]; CBI = CB + ["src/circular_buffer/iter.rs"]
IV = ["src/interval/interval.rs", "src/interval/bounds.rs"]
RING = [("start", "slot of the front element", "circular.rs CircularBuffer.start"),
        ("end", "slot one past the back element", "circular.rs CircularBuffer.end"),
        ("buffer", "capacity+1 slots; only those from start up to end (circularly) hold elements", "circular.rs CircularBuffer.buffer")]

prop("C01", "Pushing appends one element and evicts only the opposite end when full",
 "A circular buffer never holds more elements than its capacity, and nothing but resize changes the capacity. push_back puts its element after the last one and push_front before the first one, leaving every other element in order; if and only if the buffer is full, exactly one element, the one at the opposite end, is removed. With capacity zero a push discards its element and changes nothing.",
 ["inputs", "histories"], "every capacity including 0 and 1, every fill level and every position of the content in the storage (wrapped or not), every element type",
 "The tests push at most five elements into buffers of capacity 3; the wrap-around position, fill level and capacity form an unbounded space reached only by long operation histories.",
 CB, [("push_back", "CircularBuffer::push_back"), ("push_front", "CircularBuffer::push_front"), ("incr_end/decr_start", "circular index arithmetic")], RING, ["push_back", "push_front", "len", "capacity"])
prop("C02", "Every element is handed out or dropped exactly once",
 "Each element put into a circular buffer is, over the life of the buffer, either returned to the caller by exactly one operation or dropped exactly once (when evicted, discarded, cleared, skipped by a resize, or left in a buffer, drain or owning iterator that goes away). No operation returns, reads, compares, clones or drops an element that is not in the buffer, such as an unused or vacated slot.",
 ["inputs", "histories"], "every operation applied to every reachable buffer state, every element type including types with destructors",
 "One test counts drops on one five-step history; a leak, double drop or read of a vacated slot depends on wrap position, fill level and operation order.",
 CBI, [("pop_at / push_at", "moving values in and out of slots"), ("Drop", "impl Drop for CircularBuffer"), ("Clone", "impl Clone for CircularBuffer"), ("resize", "drain().skip()")], RING, ["Drop", "pop_*", "resize", "clear", "clone"])
prop("C03", "Removal takes elements from the named end, one at a time, until empty",
 "pop_front removes and returns exactly the first element and pop_back exactly the last one; both return None and change nothing if and only if the buffer is empty. clear empties the buffer; drain and the owning iterator yield the elements from front to back, removing each as it is yielded, until none is left, whichever methods of the iterator are used (next, nth, count, last, for_each). None of these changes the capacity or disturbs the order of the remaining elements.",
 ["inputs", "histories"], "every reachable buffer state, every number of items taken from a drain before it is dropped",
 "Tests pop a few elements off one or two layouts; correctness at each wrap position and capacity is not sampled.",
 CBI, [("pop_front/pop_back", "circular.rs"), ("Drain::next / IntoIter::next", "iter.rs"), ("clear", "circular.rs")], RING, ["pop_front", "pop_back", "drain", "into_iter", "clear"])
prop("C04", "All views of a circular buffer show the same front-to-back sequence",
 "len, is_empty, is_full, first, last, indexing, iter, slices and iteration by reference all describe one and the same sequence of the stored elements from front to back, and their mutable counterparts give access to exactly the corresponding elements. Observing does not change the buffer. Indexing or swapping at a position at or past the length panics, and no other observation panics.",
 ["inputs", "histories"], "every reachable buffer state and every index value",
 "Tests look at each view on two layouts of a three-element buffer.",
 CB, [("internal_index", "logical to slot index"), ("slices / slices_mut", "the two halves"), ("len", "circular distance")], RING, ["index", "iter", "slices", "first", "last", "len"])
prop("C05", "resize sets the capacity and keeps the newest elements in order",
 "After resize(n) the capacity is n and the buffer holds, in unchanged order, the last min(len, n) elements it held before; the older surplus elements are dropped.",
 ["inputs", "histories"], "every reachable buffer state and every new capacity, growing, shrinking, equal or zero",
 "One test resizes one unwrapped buffer twice.",
 CB, [("resize", "CircularBuffer::resize")], RING, ["resize"])
prop("C06", "linearize, swap and reverse only rearrange, as specified",
 "linearize keeps the sequence as it is and returns it as one contiguous mutable slice of all elements; swap(a,b) exchanges exactly the elements at positions a and b; reverse turns the sequence around. None of them adds, removes, duplicates or drops an element or changes the capacity.",
 ["inputs", "histories"], "every reachable buffer state and every pair of positions",
 "Each is tested on one layout.",
 CB, [("linearize", "rotate_left + index reset"), ("swap", "CircularBuffer::swap"), ("reverse", "CircularBuffer::reverse")], RING, ["linearize", "swap", "reverse"])
prop("C07", "Building and extending in bulk equals pushing item by item",
 "A buffer built from an iterator or a Vec has exactly the items in order and a capacity equal to their number; a buffer built with a given capacity is empty and has that capacity. Extending by an iterator, by value or by reference, is the same as push_back of each of its items in order, and append does that with all elements of the other buffer, which is left empty.",
 ["inputs", "histories"], "every iterator of any length (whatever its size hint), every reachable buffer state",
 "Tests use two and three item inputs.",
 CBI, [("FromIterator / From<Vec>", "circular.rs"), ("Extend", "circular.rs"), ("append", "circular.rs")], RING, ["from_iter", "from", "extend", "append", "new", "with_capacity"])
prop("C08", "Comparing buffers compares their sequences and nothing else",
 "Two circular buffers, or a buffer and a slice, are equal exactly if they have the same number of elements and the elements are pairwise equal; ordering is the lexicographic ordering of the sequences (for partially ordered elements the first pair that is not equal decides; if that pair is incomparable, so are the buffers). Capacity, storage position and vacated slots have no influence, and comparing changes neither operand.",
 ["inputs", "histories"], "every pair of reachable buffer states",
 "One test compares three small buffers.",
 CB, [("PartialEq/PartialOrd/Ord impls", "circular.rs")], RING, ["==", "<", "cmp"])
prop("C09", "Cloning a circular buffer gives an equal, independent buffer",
 "A clone has the same capacity as the original and holds a clone of each of its elements, in the same order, cloned once each; the original is unchanged and they share no elements.",
 ["inputs", "histories"], "every reachable buffer state, every element type",
 "No test clones a buffer.",
 CB, [("Clone", "impl Clone for CircularBuffer")], RING, ["clone"])
prop("C10", "A panic in user code leaves a circular buffer sound",
 "If an element's drop or clone, or a caller's iterator, panics in the middle of an operation on a circular buffer, the buffer is left in a valid state: everything it still contains is a live element, and no element is dropped or handed out twice afterwards (elements may be leaked).",
 ["fault_sequences", "inputs"], "a panic at any call out to the element type or to the caller's iterator, in any operation and any reachable state",
 "No test panics inside an operation.",
 CBI, [("order of state updates around drops", "push_*, pop_*, clear, resize, Drop")], RING, ["unwinding out of any method"])
prop("C11", "Pushing, popping and accessing take constant time and never allocate",
 "Pushing, popping, indexing, swapping two elements, looking at either end, and asking for length, capacity or slices perform a number of steps independent of capacity and length, and allocate no memory.",
 ["inputs", "programs"], "every call, whatever the buffer size",
 "Tests do not measure cost, and a few elements would not show it.",
 CB + ["src/circular_buffer/mod.rs"], [("loop-free, allocation-free call graphs", "circular.rs")], RING, ["push_*", "pop_*", "index", "swap", "slices"])
prop("C12", "The borrow checker and auto traits confine what buffers and views can do",
 "Safe code cannot keep a reference, slice or iterator obtained from a circular buffer, disjoint set, counter or interval beyond the borrow it came from, cannot change a collection while such a view exists, cannot obtain mutable access through a shared reference, cannot reach or alter the internal fields, and can send or share a collection between threads exactly when the elements allow it.",
 ["programs"], "every safe client program",
 "A test suite contains only programs that compile.",
 CBI + IV + ["src/disjoint_set/disjoint_set.rs", "src/counter/counter.rs"], [("signatures of iter, slices, drain, index, linearize, lower/upper", "public API"), ("private fields", "struct definitions")], [], ["type checking of client code"])

CT = ["src/counter/counter.rs"]
prop("K01", "Counts equal the number of times each element was added",
 "A counter built from, or extended by, an iterator (of values or of references) counts each element as many times as it occurs, on top of what was there before; pushing an element raises its count by one, starting from zero when absent. No other element's count changes.",
 ["inputs", "histories"], "every sequence of elements, every prior content, every hasher, whatever the iterator's size hint",
 "Two tests count one string and one array.",
 CT, [("push", "Counter::push"), ("FromIterator/Extend", "counter.rs")], [("counter", "element to count map", "Counter.counter")], ["push", "from_iter", "extend"])
prop("K02", "Adding counters sums counts element by element",
 "Adding a counter, by value or by reference, with + or +=, gives for each element the sum of its two counts, where an absent element counts as zero. All four forms agree, whatever hashers the two sides use, and a right-hand side taken by reference is unchanged.",
 ["inputs", "histories"], "all pairs of counters with any overlap, provided the sums are representable",
 "No unit test adds counters; one doc example adds two once.",
 CT, [("Add/AddAssign impls", "counter.rs")], [], ["+", "+="])
prop("K03", "Subtracting counters saturates and removes exhausted elements",
 "Subtracting a counter, by value or by reference, with - or -=, lowers each element's count by its count on the right; an element whose left count is not greater than its right count disappears, and elements absent on the left stay absent. No count underflows, elements not on the right keep their counts, all four forms agree, and a right-hand side taken by reference is unchanged.",
 ["inputs", "histories"], "all pairs of counters with any overlap and any counts",
 "Subtraction is not tested at all.",
 CT, [("Sub/SubAssign impls", "counter.rs")], [], ["-", "-="])
prop("K04", "The most-common listings are complete and sorted by falling count",
 "most_common and into_most_common return each element of the counter exactly once, paired with its count, in order of non-increasing count. most_common leaves the counter unchanged.",
 ["inputs"], "every counter, every count value",
 "Doc examples look at the first entry of one listing.",
 CT, [("most_common / into_most_common", "counter.rs")], [], ["most_common", "into_most_common"])
prop("K05", "Counters convert to and from hash maps without loss",
 "A counter made from a hash map, by value, by reference or with the same hasher, has exactly the map's elements and counts; iterating over a counter, by value, by reference or mutably, and using it as a hash map, reach exactly its own elements and counts. A clone, or a counter overwritten with one, has exactly the content of the original, and comparing compares exactly that content.",
 ["inputs"], "every map and every hasher",
 "One doc example converts a two-element map.",
 CT, [("From / from_hashmap", "counter.rs"), ("Deref/DerefMut/IntoIterator", "counter.rs")], [], ["from", "from_hashmap", "into_iter", "deref"])
prop("K06", "A panic in user code leaves every count old or finished",
 "If cloning, hashing or comparing an element, or a caller's iterator, panics in the middle of an operation that changes a counter (push, extend, += or -= with a counter, by value or by reference), then every element's count afterwards is either the one it had before or the one the finished operation would have given it (for extend: its old count plus some of its occurrences among the items taken). No element is lost that should stay and a right-hand side taken by reference is unchanged.",
 ["fault_sequences", "inputs"], "a panic at any call out to the element type or to the caller's iterator, for all counters and any overlap",
 "No test panics inside an operation.",
 CT, [("entry-wise update", "Counter::push, AddAssign, SubAssign, Extend")], [("counter", "element to count map", "Counter.counter")], ["unwinding out of any method"])
prop("K07", "Counting an element does not scan the counter",
 "push takes a number of steps independent of how many elements the counter has, and extend takes that many per item; looking at the counter as a hash map costs nothing.",
 ["inputs", "histories"], "every counter, however large",
 "Tests do not measure cost, and a few elements would not show it.",
 CT + ["src/counter/mod.rs"], [("push / extend", "one map operation per item")], [("counter", "element to count map", "Counter.counter")], ["push", "extend", "deref"])
DS = ["src/disjoint_set/disjoint_set.rs"]
DST = [("data_by_id[].parent", "forest of parent links", "disjoint_set.rs Data.parent"), ("data_by_id[].rank", "bound on the height of a root's tree", "disjoint_set.rs Data.rank"), ("ids", "element to index map", "DisjointSet.ids")]
prop("D01", "Two elements are in one subset exactly if unions connect them",
 "in_union answers true exactly if both elements are in the collection and are the same or connected by a chain of union calls. union(a,b) merges the subset of a with that of b and no others; no other operation merges or splits subsets, and queries change no answer.",
 ["histories", "inputs"], "every history of make_set, union, extend, in_union, iteration and clear over any elements",
 "One test does three unions over four elements; the forest shape depends on the history.",
 DS, [("union", "DisjointSet::union"), ("find_with_path_compression", "root lookup with compression")], DST, ["in_union", "union"])
prop("D02", "Membership and length reflect exactly the distinct elements added",
 "contains is true exactly for elements added by make_set, union, extend or construction since the last clear; len is the number of distinct such elements and is_empty is true exactly when it is zero. Adding an element that is present changes nothing, a new element starts in a subset of its own, and clear removes every element; queries add nothing. A clone, or a set overwritten with one, has exactly the elements and subsets of the original.",
 ["histories", "inputs"], "every history of operations, repeated and equal elements included",
 "Tests add at most six elements and add one twice.",
 DS, [("make_or_get_set", "id assignment"), ("clear", "both tables cleared together")], DST, ["contains", "len", "is_empty", "make_set", "clear", "from_iter", "extend"])
prop("D03", "Iteration yields the partition: each element once, in its own subset",
 "Iterating over a disjoint set yields one group per subset; every element appears exactly once, in the same group as exactly those elements that are in union with it, and no group is empty, whichever methods of the iterator are used. Iterating changes no membership and merges nothing.",
 ["histories", "inputs"], "every reachable disjoint set",
 "No test looks at the groups; the doc example prints them.",
 DS, [("build_sets", "grouping by root"), ("SetIter::next", "disjoint_set.rs")], DST, ["(&mut ds).into_iter()"])
prop("D04", "Trees stay balanced, so lookups are logarithmic in depth",
 "However unions are ordered, no element is more than log2(n) links away from its subset's representative, so a lookup can neither take linear time nor exhaust the stack; an element several links below its representative is linked nearer to it when it is looked up (path compression).",
 ["histories"], "every order of unions over any number of elements",
 "It takes an adversarial order of very many unions to show a degenerate tree.",
 DS + ["src/disjoint_set/mod.rs"], [("union by rank", "DisjointSet::union"), ("path compression", "find_with_path_compression")], DST, ["depth of parent chains"])
prop("D05", "Empty collections really are empty and keep the caller's hasher",
 "A counter or disjoint set made by new, default, with_capacity, with_hasher or with_capacity_and_hasher contains no element, and where a hasher is given the collection uses exactly that hasher. Reserving capacity changes no content.",
 ["inputs", "configurations"], "every capacity and every hasher type, the default one and the fast one",
 "Tests create two empty collections and never supply a hasher.",
 DS + CT, [("constructors", "disjoint_set.rs, counter.rs"), ("reserve", "DisjointSet::reserve")], [], ["constructors", "reserve"])
prop("D06", "A panic in user code leaves a disjoint set valid",
 "If hashing, comparing, cloning or dropping an element, or a caller's iterator, panics in the middle of an operation on a disjoint set, the set is left valid: exactly its elements have a place in the forest, each its own; an element present before is still present and in union with exactly the same elements as before (for a union call, possibly already joined; for clear, possibly gone together with all others); an element newly present is one of those that were being added and is in a subset of its own (or in the one a union call puts it in).",
 ["fault_sequences", "inputs"], "a panic at any call out to the element type or to the caller's iterator, in any operation and any reachable state",
 "No test panics inside an operation.",
 DS, [("make_or_get_set", "both tables extended together"), ("clear", "forest emptied before the elements")], DST, ["unwinding out of any method"])
prop("D07", "Requested capacity is really reserved",
 "A counter or disjoint set made with_capacity(n) or with_capacity_and_hasher(n) holds n elements without reallocating, and with n = 0 nothing is allocated. After reserve(k) on a disjoint set, k more elements can be added without reallocating. Adding, counting and querying never give up room that was reserved.",
 ["inputs", "histories"], "every requested capacity and every state of the collection",
 "A doc example asks one counter for its capacity; the node table of a disjoint set cannot be asked from outside.",
 DS + CT, [("with_capacity / with_capacity_and_hasher", "disjoint_set.rs, counter.rs"), ("reserve", "DisjointSet::reserve")], [], ["allocations while elements are added"])
prop("D08", "Single-element operations on disjoint sets do not scan the set",
 "make_set, union, contains, in_union, len and is_empty take a number of steps independent of how many elements the set has (apart from the climb to a representative, which D04 bounds); extend takes that many per item.",
 ["inputs", "histories"], "every disjoint set, however large, and every pair of elements",
 "Tests do not measure cost, and six elements would not show it.",
 DS + ["src/disjoint_set/mod.rs"], [("union / in_union / make_or_get_set", "loop-free but for the climb"), ("find_with_path_compression", "climb and relinking of one path")], DST, ["make_set", "union", "contains", "in_union", "extend"])

INV = [("imp", "None for the empty interval, else the two bounds", "interval.rs Interval.imp"), ("bound.is_closed", "whether the bound value itself belongs", "bounds.rs Bound.is_closed")]
prop("I01", "Every interval is empty, ordered, or a single closed point",
 "Whatever sequence of operations produced it, an interval is either empty or has a lower value below its upper value, or equal values with both bounds closed. In-place operations leave this true of the interval they change.",
 ["histories", "inputs"], "every constructor and operation on any intervals over any ordered type",
 "Tests construct a few intervals of small integers.",
 IV + ["src/interval/interval_math.rs"], [("create_checked", "interval.rs"), ("fix_after_modification", "interval.rs")], INV, ["every operation that yields or changes an interval"])
prop("I02", "Constructors build exactly the requested interval or panic",
 "new, from_bounds, open, closed, lower_closed and upper_closed return the interval with the given bound values and the closedness their name or arguments say, and panic exactly if the lower value is above the upper one or the two are equal and not both bounds are closed. single gives the closed interval of one value and empty the empty interval.",
 ["inputs"], "every pair of values of any ordered type and every closedness",
 "Each constructor is tried on one or two integer pairs.",
 IV, [("create_checked", "interval.rs")], INV, ["constructors"])
prop("I03", "Containment is set containment",
 "contains_val(v) is true exactly if v lies within the bounds, an end value belonging only if that bound is closed; the empty interval contains nothing. contains_interval(o) is true exactly if o is empty or both of o's bounds lie within the interval's own bounds, taking closedness into account.",
 ["inputs"], "every interval, every value, every pair of intervals over any ordered type",
 "Tests use one half-open integer interval.",
 IV + ["src/interval/interval_cmp.rs"], [("contains_val / contains_interval", "interval.rs")], INV, ["contains_val", "contains_interval"])
prop("I04", "Intersection is set intersection",
 "The intersection of two intervals contains exactly the values in both: its lower bound is the greater of the two lower bounds and its upper bound the lesser of the two upper ones, or it is empty if the two do not overlap. intersects tells exactly whether it is non-empty, the in-place and the consuming form agree, and neither panics.",
 ["inputs"], "every pair of intervals (empty, single, touching, nested, disjoint; every closedness) over any ordered type",
 "Tests intersect four integer pairs, none touching at an end.",
 IV + ["src/interval/interval_cmp.rs"], [("intersects / intersection / into_intersection", "interval.rs")], INV, ["intersects", "intersection", "into_intersection"])
prop("I05", "Merging succeeds exactly without a gap and then is the union",
 "can_be_merged is true exactly if one of the intervals is empty or there is no gap between them (they overlap, or touch at a value that at least one of them contains). Merging then gives the union of the two; otherwise it fails, returning the operands unchanged. The in-place and the consuming form agree and neither panics.",
 ["inputs"], "every pair of intervals over any ordered type",
 "Tests cover some touching cases in one order of operands for the consuming form.",
 IV, [("can_be_merged / merge / into_merged", "interval.rs"), ("are_separated", "bounds.rs")], INV, ["can_be_merged", "merge", "into_merged", "is_separated_from"])
prop("I06", "Span is the smallest interval covering both",
 "The span of two intervals has the lesser of the two lower bounds and the greater of the two upper bounds, a closed bound reaching further than an open one at the same value; the span with the empty interval is the other interval. The in-place and the consuming form agree and neither panics.",
 ["inputs"], "every pair of intervals over any ordered type",
 "Tests span a few integer pairs always extending upward.",
 IV, [("span / into_span", "interval.rs")], INV, ["span", "into_span"])
prop("I07", "Comparing intervals and values follows the documented position order",
 "An interval is less than another (or than a value) exactly if all its points lie below all the other's points, and less-or-equal if they may additionally share one end value; greater and greater-or-equal mirror this. An interval equals another exactly if both bounds are the same or both are empty, and equals a value exactly if it is that single value; partial_cmp gives Less, Greater or Equal accordingly and None otherwise. An empty interval is neither less nor greater than, nor less-or-equal or greater-or-equal to, anything.",
 ["inputs"], "every pair of intervals and every interval and value over any ordered type",
 "Tests compare two fixed intervals with a handful of others; no empty and few single ones.",
 IV + ["src/interval/interval_cmp.rs"], [("PartialOrd/PartialEq impls", "interval_cmp.rs")], INV, ["==", "<", "<=", ">", ">=", "partial_cmp"])
prop("I08", "Bounds are ordered lawfully",
 "Lower bounds, and upper bounds, are totally ordered by value, where at equal values a closed lower bound comes before an open one and an open upper bound before a closed one; compared with a plain value, a bound lies at it when closed and otherwise just above it (lower) or just below it (upper). All comparison operators, partial_cmp, cmp, min, max, == and != are consistent with each other and with swapping the operands. A lower and an upper bound are never equal, and when their values differ they compare like the values.",
 ["inputs"], "all pairs of bounds, and bounds with values, over any ordered type",
 "Tests compare bounds at values 4, 5 and 6 with some of the operators, and only through == for the mixed pair.",
 ["src/interval/bounds.rs"], [("Ord/PartialOrd/PartialEq impls", "bounds.rs")], INV, ["<", "<=", ">", ">=", "==", "!=", "cmp", "partial_cmp"])
prop("I09", "Arithmetic maps both bounds and keeps each bound's closedness",
 "Adding, subtracting, multiplying or dividing an interval by a value, or negating it, gives the interval between the images of its two bound values, each end keeping the closedness of the bound it came from, with the ends exchanged if the operation reversed their order; if the images coincide and not both ends are closed the result is empty. The empty interval stays empty. Operator and assigning forms agree, and the same holds for single bounds.",
 ["inputs"], "every interval and operand over any ordered type with these operations",
 "Tests use one integer interval and a few operands; none has unequal closedness with every operator.",
 IV + ["src/interval/interval_math.rs"], [("Add/Sub/Mul/Div/Neg and assigning impls", "interval_math.rs, bounds.rs"), ("fix_after_modification", "interval.rs")], INV, ["+", "-", "*", "/", "unary -"])
prop("I10", "Observers and destructors report the interval faithfully",
 "lower, upper, bounds, is_empty, is_single, is_lower_closed, is_upper_closed, into_tuple and into_bounds, and the corresponding accessors of bounds, report exactly the values and closedness the interval has, and None for the empty interval. Displaying writes the lower value, a comma and the upper value between a square bracket at each closed end and a parenthesis at each open end, and Ø for the empty interval. Taking an interval apart and rebuilding it gives an equal interval, and a clone equals the original.",
 ["inputs"], "every interval over any ordered (and displayable) type",
 "Tests look at five intervals; one doc example displays one.",
 IV, [("accessors", "interval.rs, bounds.rs"), ("Display", "interval.rs")], INV, ["lower", "upper", "bounds", "into_tuple", "into_bounds", "Display"])
prop("I11", "Equal bounds and intervals hash alike",
 "Two equal intervals, lower bounds or upper bounds feed exactly the same data to any hasher, so they can be used as keys of hash maps and sets.",
 ["inputs"], "all pairs of equal intervals or bounds over any type whose own equality and hash agree",
 "Nothing hashes an interval in the tests.",
 IV, [("derived Eq/Hash", "interval.rs, bounds.rs")], INV, ["Hash"])
prop("I12", "A panic in user code leaves no half modified interval",
 "If arithmetic on bound values panics (for instance because it overflows), or cloning or dropping one does, in the middle of an operation that changes an interval in place, the interval is afterwards still a valid one: empty, or with a lower value below its upper value, or a single closed point. After arithmetic it is empty, as it was before, or as the finished operation makes it, never with just one of its bounds modified.",
 ["fault_sequences", "inputs"], "a panic at any call out to the arithmetic, clone or drop of the bound type, in any in-place operation on any interval",
 "No test panics inside an operation.",
 IV + ["src/interval/interval_math.rs"], [("assigning operators", "interval_math.rs"), ("merge / intersection / span", "interval.rs")], INV, ["unwinding out of any in-place operation"])
prop("T01", "Operations accept every element type they are documented for",
 "No operation of the four collections asks more of the element type, the operand type or the hasher than it is documented to: buffers take elements that can be neither cloned nor compared nor shown; intervals need an order only, and clone only where a value is needed twice; counters and disjoint sets need Hash and Eq, and Clone or Copy only where elements are read through references; arithmetic takes any operand type the values can be combined with; hashers need Default only where one is made up. Borrowed elements are accepted, and what is borrowed from a collection lives as long as that borrow.",
 ["programs"], "every element type, operand type and hasher with the documented abilities",
 "Tests use numbers and strings, which can do everything.",
 CB + CBI + IV + CT + DS, [("trait bounds and lifetimes of the public operations", "all impl blocks")], [], ["type checking of generic client code"])
prop("H01", "Collections hash with random keys unless another hasher is chosen",
 "A Counter or DisjointSet whose hasher is not named uses the standard library's randomly keyed RandomState, whatever operation makes it, and FastCounter and FastDisjointSet use the FNV hasher. No operation changes the hasher type: clones have the hasher type of the original, sums and differences that of the left operand, and from_hashmap and dereferencing that of the hash map itself.",
 ["configurations"], "every element type and every way of making or converting a collection",
 "Every hasher gives the same counts, so no test notices which one is used.",
 CT + DS + ["src/counter/fast_counter.rs", "src/disjoint_set/fast_disjoint_set.rs"], [("default type parameter S = RandomState", "Counter, DisjointSet"), ("type aliases", "fast_counter.rs, fast_disjoint_set.rs")], [], ["type of the hasher"])
# declined
prop("X01", "Default hashing resists collision attacks",
 "With the default hasher an adversary choosing elements cannot make counter or disjoint-set operations degrade to linear time.",
 ["inputs"], "every adversarial choice of elements",
 "It is a probabilistic statement about the hasher.",
 CT + DS, [("S = RandomState", "Counter, DisjointSet")], [], ["run time"])
prop("X02", "Operations finish within their documented amortised cost",
 "Counting n elements takes O(n) expected time and a sequence of m unions and queries O(m α(n)) time.",
 ["histories"], "every operation sequence",
 "Asymptotic cost cannot be sampled.",
 CT + DS, [("hash map and union-find", "counter.rs, disjoint_set.rs")], [], ["run time"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
