"""The properties, and (run as a program) /verif/properties.jsonl and /verif/MANIFEST.json made from them."""
import json, os

A = "include/xme/container/array.hpp"
SP = "private/container/spsc_queue_base.hpp"

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech="", level="model_checking", note=""):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, state=state, observe=observe, tech=tech, level=level, note=note)

ASAN = ("The code under test is compiled from /repo's working tree twice: with assertions, AddressSanitizer and "
        "UBSan, and optimised with NDEBUG. ")

PROPS = [
P("C01", "Array holds the sequence its operation history describes",
  "After any history of constructing, copying, moving, assigning, swapping, pushing, emplacing, inserting (one value or a range, anywhere), erasing (one element or a range, anywhere), popping, reserving, resizing and clearing, an Array holds exactly the elements the same history gives a mathematical sequence, in order, and size, empty, front, back, indexing, data, equality of iterators and forward, backward and const iteration all agree with it. "
  "insert returns an iterator to the first inserted element and erase an iterator to the element after the erased ones. "
  "The value pushed, emplaced or inserted may be (a reference to, or moved from) an element of the array itself, and sizes 0 and 1 and crossing any capacity are no exception. With assertions on, popping from an empty Array is rejected.",
  ["histories", "inputs"], "every operation sequence, position, size and spare capacity",
  "The tests run a handful of straight-line sequences on arrays of at most a few ints; the result of an insert or erase depends on size, position, spare capacity and aliasing together, which only enumeration covers.",
  [A, "include/xme/container/icontainer.hpp", "include/xme/ranges/uninitialized.hpp"],
  [("insert / realloc_insert / grow_storage / shrink_storage / erase", A)],
  [("m_data.begin/end/storage_end", "the element range and the storage behind it", A)],
  ["begin()/end()/size()/operator[]/data()", "iterators returned by insert and erase"],
  "bounded explicit-state model checking of the implementation (BFS over operation histories in lockstep with a reference sequence) plus exhaustive shape sweep",
  note=ASAN + "Every operation history up to the stated depth over two arrays, and every (size, spare, operation, position, count) shape up to the stated sizes, agrees with a plain sequence. Trusts the reference and that element values matter only by identity."),
P("C02", "Array constructs and destroys every element once and frees what it allocated",
  "Over any history of Array operations, every element is constructed exactly once before it is used and destroyed exactly once, no element is used outside its lifetime or moved by copying its bytes, an array of a move-only type works for every operation that does not copy, and what is passed as an rvalue is not copied. "
  "Every block of memory is given back exactly once, with the size it was asked for, to the allocator it came from, and nothing remains alive or allocated once the arrays are gone. "
  "An array given an allocator uses that allocator (its copies and the array it is moved to, and both arrays after a swap of propagating allocators) for all of its memory, and for constructing and destroying its elements if the allocator has functions for that.",
  ["histories", "inputs"], "every operation sequence, position, size and spare capacity, with a counting allocator and address-checking elements",
  "The tests store ints and the default allocator, for which a missed destructor, an assignment to raw memory or a wrong deallocation size has no visible effect.",
  [A, "include/xme/ranges/destroy.hpp", "include/xme/ranges/uninitialized.hpp"],
  [("allocator_traits construct/destroy around every relocation", A), ("~Array / destroy_a", "include/xme/ranges/destroy.hpp")],
  [("m_allocator", "the allocator all memory of the array comes from", A)], ["constructor/destructor/allocator calls"],
  "bounded explicit-state model checking of the implementation with a lifetime monitor (registry of live objects and blocks) on every transition",
  note=ASAN + "A registry observes every constructor, assignment, destructor, allocation and deallocation of every explored history; trusts that the payload's lifetime behaviour is representative of other types."),
P("C03", "Array capacity: reserve, resize, clear and when elements stay in place",
  "size never exceeds capacity; reserve(n) never shrinks, never changes the elements and leaves room for at least n; resize(n) makes the capacity exactly n, keeps the first min(size, n) elements in order, and creates none; clear, pop_back and erase keep the capacity. "
  "An operation whose result fits the current capacity does not reallocate, so the storage and the addresses of elements before the point of change are kept; move construction, move assignment and swap hand over storage without touching elements. "
  "Appending n elements one by one reallocates only O(log n) times.",
  ["histories", "inputs"], "every operation sequence, size, spare capacity and requested capacity",
  "The tests check capacity after one or two calls; the guarantees relate capacity before and after every operation in every reachable shape.",
  [A], [("reserve/resize/clear/grow_storage/shrink_storage/realloc_insert", A)],
  [("m_data.storage_end", "end of the storage", A)], ["capacity()", "data()", "allocator calls"],
  "bounded explicit-state model checking of the implementation with storage invariants on every transition",
  note=ASAN + "Invariants on capacity, storage identity and allocation counts are checked on every explored transition and every shape."),
P("C04", "A throwing element or allocator leaks nothing and corrupts nothing in Array",
  "If constructing, copying, moving or assigning an element throws, or an allocation fails, at any point inside any Array operation, the exception reaches the caller, nothing is leaked, destroyed twice or used outside its lifetime, and every array involved can still be read, modified and destroyed. "
  "When an append of one element, a reserve, a resize, a construction or a copy assignment fails because a copy or an allocation failed, the arrays involved hold exactly what they held before.",
  ["fault_sequences", "histories"], "every operation on every array shape, with the fault at every possible point of it",
  "No test injects a failure; the set of fault points is the product of operation, shape and how far it got.",
  [A, "include/xme/ranges/uninitialized.hpp"], [("try/catch rollback in uninitialized_move, realloc_insert, grow_storage, insert, uninitialized_copy_a", A)],
  (), ["exceptions", "registry of live elements and blocks"],
  "exhaustive fault enumeration on the implementation: every operation x shape x k-th throwing element operation or allocation",
  "fault_enumeration",
  ASAN + "Every fault point reached by every operation on every shape up to the bound is exercised once; trusts that fault behaviour does not depend on element values."),
P("C05", "ArrayView refers to exactly the elements asked for and rejects other windows",
  "A view made from an array, std::array, C array, iterator and size, or iterator pair refers to exactly those elements, without copying them; size, size_bytes, indexing, front, back, data and iteration agree, and writes through the view reach the viewed elements. "
  "subview, first and last, with static or run-time arguments, refer to exactly the requested window for every window that fits, and with assertions on every run-time request that does not fit is rejected, whatever the numbers. "
  "Byte views cover exactly the bytes of the viewed elements.",
  ["inputs", "programs"], "every container kind, size, offset and count, including counts near the maximum",
  "The tests try one or two windows on one array; off-by-one and overflow in a window depend on offset and count together.",
  ["include/xme/container/array_view.hpp", "include/xme/container/icontainer.hpp"],
  [("subview/first/last/as_bytes", "include/xme/container/array_view.hpp")], (), ["size()", "data()", "operator[]", "assertions"],
  "exhaustive enumeration of view constructions and chains of windows on the implementation against an index-range model",
  note=ASAN + "All chains of window operations to the stated depth from all constructions up to the stated size, plus out-of-range requests over a boundary set reaching SIZE_MAX."),
P("C06", "LinkedList holds the sequence its operation history describes",
  "After any history of constructing, copying, moving, assigning, pushing, emplacing, inserting (one value or a range, after any position), erasing (one or a range, after any position), popping, clearing and reversing, a LinkedList holds exactly the elements the same history gives a mathematical sequence, in order, in mutable and const iteration, and front and empty agree. "
  "Insertion returns an iterator to the last element it inserted (the position itself if there was none), and emplacing at the front a reference to the new element. "
  "Iterators and references to elements that are not erased stay valid and keep referring to the same element.",
  ["histories", "inputs"], "every operation sequence and position",
  "The tests run a few fixed sequences; relinking errors need particular positions, lengths and follow-up operations to show.",
  ["include/xme/container/linked_list.hpp", "private/container/linked_list_base.hpp"],
  [("emplace_after/erase_after/assign/reverse relinking", "include/xme/container/linked_list.hpp")],
  [("m_head.next", "first node", "include/xme/container/linked_list.hpp")], ["iteration", "returned iterators"],
  "bounded explicit-state model checking of the implementation (BFS over operation histories in lockstep with a reference sequence)",
  note=ASAN + "Every operation history up to the stated depth over two lists, and every position and range length up to the stated size."),
P("C07", "LinkedList constructs and destroys every element once, also when one throws",
  "Over any history of LinkedList operations every element is constructed once and destroyed once at the address it keeps for life, every node is given back to the allocator once with the size it was asked for, and nothing remains once the lists are gone. "
  "If constructing, copying or assigning an element throws, or an allocation fails, at any point inside any operation, the exception reaches the caller, nothing is leaked or destroyed twice, and the list can still be read, modified and destroyed; a failed construction of a single new element leaves the list exactly as it was.",
  ["histories", "fault_sequences"], "every operation sequence, and every fault point of every operation on every list shape",
  "The tests store ints and inject no failure.",
  ["include/xme/container/linked_list.hpp", "private/container/linked_list_base.hpp"],
  [("create_node rollback, delegating constructors", "include/xme/container/linked_list.hpp")], (), ["constructor/destructor/allocator calls"],
  "bounded explicit-state model checking with a lifetime monitor, plus exhaustive fault enumeration, on the implementation",
  note=ASAN + "The registry observes every constructor, destructor, allocation and deallocation of every explored history and of every enumerated fault."),
P("C08", "Heap is a priority queue under any strict weak ordering",
  "After any history of pushes, emplaces and pops from any starting range, the elements of a Heap are exactly those pushed and not yet popped, and front is one that no other element outranks under the comparator (the largest by default, the smallest with std::greater). "
  "pop removes exactly the element front referred to, so popping until empty yields the elements in priority order, duplicates and elements that are equivalent but distinguishable included, none lost or duplicated. "
  "push and pop take O(log n) comparisons, and with assertions on popping from an empty Heap is rejected.",
  ["histories", "inputs"], "every sequence of pushes and pops over every ordering of keys",
  "The tests heapify one or two short lists; a wrong sift shows only for some relative orders of the keys.",
  ["include/xme/container/heap.hpp", A], [("heapfy_up/heapfy_down", "include/xme/container/heap.hpp")],
  [("m_array", "the implicit tree", "include/xme/container/heap.hpp")], ["front()", "size()", "iteration", "comparison counts"],
  "bounded explicit-state model checking of the implementation over push/pop histories, states canonicalised by heap layout",
  note=ASAN + "All push/pop histories over a small key alphabet up to the stated depth, all key sequences up to the stated length drained, and shaped large heaps; trusts that only relative order of keys matters."),
P("C09", "SPSCQueue delivers every element once, in order, race free, in every schedule",
  "With one thread producing and one consuming, in every interleaving and every outcome the C++ memory model allows, the consumer receives exactly the elements whose push reported success, each once, in order and fully constructed, with no data race. "
  "push reports false only when the queue was full at some moment during the call and then changes nothing; a successful push becomes visible to the consumer; no call ever waits for the other thread. "
  "An element becomes available to the producer for reuse only after it has been consumed and destroyed.",
  ["schedules"], "every interleaving of a producer and a consumer and every value each atomic load may return",
  "The one threaded test runs one schedule of an x86 machine per execution, which cannot show a missing release or acquire nor most interleavings.",
  ["include/xme/container/spsc_queue.hpp", SP],
  [("acquire/release on the two indices, one slot kept free", SP)],
  [("m_write_index/m_read_index", "producer and consumer positions", SP)], ["push/emplace results", "consumed elements"],
  "stateless model checking of the implementation under a controlled scheduler with a C11 weak-memory model and happens-before race detection (own __tsan runtime)",
  note="The queue is compiled from /repo with -fsanitize=thread instrumentation linked to our own runtime, which runs the two threads as fibers and enumerates every interleaving of atomic operations and every store each load may read under C11 release/acquire/relaxed. Races are found with vector clocks on all instrumented plain accesses. Does not model out-of-thin-air values or load buffering (stores are executed in program order)."),
P("C10", "SPSCQueue counts what it holds and what it can take",
  "After any history of pushes, emplaces, pops and consumes, with any power-of-two capacity N, static or dynamic, the queue is first in first out, read_available is the number of elements in it and write_available the number of pushes that would now succeed, their sum is N - 1, and push succeeds exactly when write_available is not zero, however often the indices have wrapped around. "
  "A push that fails changes nothing, and with assertions on popping or consuming from an empty queue, or a dynamic capacity that is not a power of two, is rejected. "
  "Seen from one thread while the other runs, read_available never exceeds what the consumer can then pop and write_available never exceeds what the producer can then push.",
  ["histories", "schedules", "configurations"], "every operation history at every wrap position, every capacity in the bound, and every schedule for the estimates",
  "The tests fill and empty one queue from index zero.",
  ["include/xme/container/spsc_queue.hpp", SP], [("read_available/write_available/next_index", SP)],
  [("m_write_index/m_read_index", "positions modulo capacity", SP)], ["read_available()", "write_available()", "push results"],
  "explicit-state model checking of the implementation to a fixed point over all index pairs, plus stateless exploration of concurrent estimates",
  note=ASAN + "The (write, read) index state space of each capacity is explored to a fixed point. The concurrent part uses the same controlled scheduler as C09."),
P("C11", "SPSCQueue constructs and destroys each element once",
  "Over any history, an element is constructed in the queue exactly when a push or emplace succeeds (from an rvalue without copying), is handed as an rvalue exactly once to the function given to consume, is destroyed exactly once when popped or consumed or, if still queued, when the queue is destroyed, and a dynamic queue gives its memory back with the size it was asked for. "
  "If constructing the element throws, the exception reaches the caller and the queue is as if the push had not been called. "
  "Element types that are not default constructible, not copyable, over-aligned or trivially destructible all work, statically or dynamically sized.",
  ["histories", "fault_sequences", "programs"], "every operation history at every wrap position, with a throwing constructor at every push",
  "The tests queue trivially destructible elements.",
  ["include/xme/container/spsc_queue.hpp", SP, "include/xme/container/aligned_data.hpp"],
  [("construct_at before index store, destroy_at before index store, destructor loop", SP)], (), ["constructor/destructor/allocator calls"],
  "explicit-state model checking of the implementation with a lifetime monitor, to a fixed point per capacity",
  note=ASAN + "All operation histories to the stated depth for each capacity, with every push also tried with a throwing constructor."),
P("C12", "Pair and Tuple compare, swap, assign and convert element by element",
  "Two pairs or tuples of objects are equal exactly when all their elements are and order lexicographically with the strength their elements allow; swap exchanges every element, and on tuples of references the referred objects. "
  "Assigning from a pair, tuple or any tuple-like (std::pair, std::tuple, std::array, of the same or convertible element types) gives every element the corresponding source element, copied from an lvalue and moved from an rvalue, through references too, and an exception from an element's assignment reaches the caller. "
  "Conversion to another tuple-like or aggregate and construction by make_pair, make_tuple and deduction preserve every element (reference wrappers become references), tuples of tuples included.",
  ["inputs", "programs"], "every arity and every combination of element values in the bound",
  "The tests compare a few fixed pairs and tuples.",
  ["include/xme/container/pair.hpp", "include/xme/container/tuple.hpp", "private/container/tuple_base.hpp"],
  [("defaulted comparison over TupleElement bases", "private/container/tuple_base.hpp"), ("assign_tuple_index, swap", "include/xme/container/tuple.hpp")],
  (), ["element values, copy and move counts"],
  "exhaustive enumeration of element values, arities and operation histories on the implementation against the std tuple as reference",
  note=ASAN + "All value combinations over the alphabet for each listed type shape, and all short histories of swap/assign over a register file of tuples."),
P("C13", "get, apply, tie and tuple_cat pick the right element in the right category",
  "get<I> of a pair or tuple refers to its I-th element, with the constness and value category of the tuple expression (an lvalue reference element stays an lvalue), and tuple_element, tuple_size and structured bindings agree. "
  "apply calls the function once with exactly the elements in order, forwarded in the tuple's value category, and returns its result unchanged, reference or value. "
  "tie and forward_as_tuple refer to their arguments, and tuple_cat of any number of tuples, pairs and std tuples, empty ones included, is their elements in order, copied from lvalues and moved from rvalues exactly once.",
  ["programs", "inputs"], "every arity, every index, every combination of argument tuples and value categories",
  "The tests check two or three hand-written instances; an index or category mistake shows only for some arities and combinations.",
  ["include/xme/container/tuple.hpp", "include/xme/container/pair.hpp", "private/container/tuple_base.hpp"],
  [("TupleCat index computation, detail::apply, operator[] overloads", "include/xme/container/tuple.hpp")], (), ["addresses, types, copy and move counts"],
  "exhaustive enumeration of generated programs (arities x indices x value categories x argument shapes) executed against an index model",
  note=ASAN + "Every combination within the bound is instantiated and executed; addresses, static types and copy/move counts are compared."),
P("C14", "find returns the first match for every input and SIMD configuration",
  "For every element type, range kind, length, alignment, execution policy and value, find returns an iterator to the first element equal to the value, or the end when there is none, and reads nothing outside the range. "
  "Equality is that of the element type (floating point zeros and NaN, user-defined equality and padding included), and the result is the same for every SIMD extension enabled.",
  ["inputs", "configurations", "programs"], "every length, start alignment, match position set and element type, in every SIMD configuration",
  "The tests search one vector per element size in one configuration; the boundary between blocks and remainder depends on length, alignment and position.",
  ["include/xme/core/algorithm/find.hpp", "include/xme/hal/simd_detection.hpp"],
  [("find_simd block compare, scalar remainder", "include/xme/core/algorithm/find.hpp")], (), ["returned iterator", "memory read"],
  "exhaustive enumeration of lengths x alignments x first-match positions x decoys x types x SIMD configurations on the implementation",
  "exploration",
  "Each SIMD configuration is compiled separately with the matching -m flags, with AddressSanitizer and exactly sized buffers; lengths up to several blocks. Configurations the CPU lacks are listed as not run in the evidence."),
P("C15", "reverse reverses every range in place in every SIMD configuration",
  "For every element type, range kind, length and alignment, reverse leaves the range with its elements in the opposite order, touches nothing outside it, uses every element's own move or swap when the type is not trivially copyable, and returns the end of the range. "
  "Reversing twice restores the original, and the result is the same for every SIMD extension enabled.",
  ["inputs", "configurations", "programs"], "every length, alignment and element type, in every SIMD configuration",
  "The tests reverse one or two vectors in one configuration.",
  ["include/xme/core/algorithm/reverse.hpp", "include/xme/hal/simd_detection.hpp"],
  [("reverse_simd block swap, scalar middle", "include/xme/core/algorithm/reverse.hpp")], (), ["range contents", "guard bytes"],
  "exhaustive enumeration of lengths x alignments x types x SIMD configurations on the implementation",
  "exploration",
  "As C14; every element is distinguishable (lengths up to 255 with distinct bytes, beyond with two passes), so any misplaced element is seen."),
P("C16", "Iterators obey the laws of their category and adaptors mirror their base",
  "Iterators of Array, LinkedList, reverse_iterator and const_iterator adaptors over any base satisfy the laws of their category for every position: increments and decrements are inverse, +, -, += and -= agree with repeated steps, differences, equality and every ordering agree with positions, subscripting agrees with dereferencing, and pre and post forms return what they should. "
  "A reverse iterator visits exactly the elements of its base range backwards, and orders like the reversed sequence. "
  "A const iterator refers to the same elements as its base, compares and subtracts with it and with sentinels, and gives no way to modify what it refers to.",
  ["histories", "inputs", "programs"], "every position pair and every sequence of steps over every base iterator",
  "The tests walk one range with a few operators; mixed comparisons and offsets are hardly used.",
  ["include/xme/core/iterators/reverse_iterator.hpp", "include/xme/core/iterators/const_iterator.hpp", A, "private/container/linked_list_base.hpp"],
  [("operator definitions", "include/xme/core/iterators/reverse_iterator.hpp")], (), ["element addresses, comparison results"],
  "explicit-state exploration of iterator operation histories on the implementation against a position model, all position pairs",
  note=ASAN + "All position pairs and all step histories to the stated depth for every base iterator listed."),
P("C17", "Delegate calls what it holds and owns its own copy of it",
  "After any history of constructing from functions, member pointers, lambdas and functors of any size, copying, moving, swapping, assigning (also from itself, from nullptr and from callables) and destroying, every Delegate is empty or holds exactly the callable that history gives it; calling it forwards every argument once to it and returns its result, and calling an empty one throws bad_function_call. "
  "Copies are independent, moves and swaps transfer without copying and leave the source of a move empty, and every stored functor is destroyed exactly once and never used after, at its own alignment and without copying non-trivial functors bytewise. "
  "handle gives the stored functor for its exact type and null otherwise, null function and member pointers make an empty Delegate, and if copying a callable throws both delegates are unchanged.",
  ["histories", "fault_sequences", "programs"], "every history over several delegates and every kind of callable, with a throwing copy at every point",
  "The tests call a few delegates once; ownership errors need copies, moves and destruction in particular orders with heap and local functors.",
  ["include/xme/core/functional/delegate.hpp"], [("FunctorManager copy/destroy, storage swap", "include/xme/core/functional/delegate.hpp")],
  [("m_storage/m_callable/m_manager", "the stored callable and its operations", "include/xme/core/functional/delegate.hpp")], ["call results, functor registry"],
  "bounded explicit-state model checking of the implementation (BFS over histories of three delegates with a functor registry)",
  note=ASAN + "All histories to the stated depth over delegates and callable kinds listed in DESIGN.md, each with every copy-fault point."),
P("C18", "bind_front and bind_back call with bound and call arguments in order",
  "Calling the result of bind_front(f, b...) with c... calls f(b..., c...) exactly once and bind_back calls f(c..., b...), for every number of bound and call arguments and every callable kind, returning the result unchanged. "
  "Bound arguments and the callable are stored as decayed copies, moved in when given as rvalues, passed as lvalues of the binder's constness when it is called as an lvalue and as rvalues when it is called as a (non-const) rvalue, while call arguments are forwarded as given. "
  "Binders can be called repeatedly, copied and moved, each copy being independent, and an exception from the function or from copying or moving an argument reaches the caller without a leak.",
  ["programs", "inputs"], "every arity, argument value category and binder value category",
  "The tests call two or three binders with ints.",
  ["include/xme/core/functional/bind.hpp"], [("BindFront::call / BindBack::call", "include/xme/core/functional/bind.hpp")], (), ["arguments and categories received, copy and move counts"],
  "exhaustive enumeration of generated programs (arities x value categories x callable kinds) executed against an argument-list model",
  note=ASAN + "Every combination within the bound is instantiated and run; the callee records the values, categories and constness it receives."),
P("C19", "ScopedDelegate runs its function exactly once when the scope ends",
  "However a scope is left (normally, by return, break, goto or by an exception), a ScopedDelegate calls its function exactly once, at the end of its lifetime and never before, and several in one scope run in reverse order of declaration, interleaved correctly with the destruction of other objects. "
  "It calls its own copy of the callable, which it makes once (nothing is copied or moved again to call it): a later change to, or the end of, the original does not matter, and an rvalue is moved in; if storing it throws, the exception reaches the caller and nothing is called.",
  ["histories", "programs"], "every nesting of scopes and every way of leaving them",
  "The tests leave one scope normally.",
  ["include/xme/core/functional/scoped_delegate.hpp"], [("destructor", "include/xme/core/functional/scoped_delegate.hpp")], (), ["call log"],
  "exhaustive enumeration of scope programs (nesting, exit kind, exception point) executed against a stack model",
  note=ASAN + "All scope programs to the stated nesting and length."),
P("C20", "Vector arithmetic is component-wise and geometry matches its definition",
  "For vectors of every size and arithmetic type, construction (from a scalar, components, or smaller vectors in any arrangement), conversion, indexing, named components, unary minus, and +, -, *, / and their assigning forms with vectors or scalars give exactly the component-wise results with operands converted to the vector's type, and leave other operands unchanged; equality and ordering are component-wise and lexicographic. "
  "dot, cross, length, distance, normalize, reflect, faceforward (away from orthogonal vectors), lerp, mix and sign agree with their mathematical definitions, and with assertions on an index out of bounds is rejected. "
  "The specialised sizes agree with the general one.",
  ["inputs", "programs"], "every size, element type and combination of component values in the bound",
  "The tests compute a few fixed vectors; a swapped component shows only when the components differ in the right places.",
  ["include/xme/math/vector.hpp", "include/xme/math/vectors/vector2.hpp", "include/xme/math/vectors/vector3.hpp", "include/xme/math/vectors/vector4.hpp", "include/xme/math/vectors/geometry.hpp", "include/xme/math/vectors/functions.hpp", "include/xme/math/glsl_mapping.hpp"],
  [("VEC_OP/VEC_SELF_OP and the specialisations", "include/xme/math/vectors/vector4.hpp")], (), ["component values"],
  "exhaustive enumeration of component grids and expression histories on the implementation against exact reference arithmetic",
  "exploration",
  ASAN + "Exact (integer-valued) operands make every comparison exact; length and normalisation are compared within a few ulp. Complete over the grids, which determine multilinear operations."),
P("C21", "Matrix arithmetic matches linear algebra, column major, for every shape",
  "For matrices of every shape, construction (diagonal from a scalar, columns, other matrices), conversion, unary minus, +, -, scalar * and /, their assigning forms, matrix-vector and matrix-matrix products, row, column, transpose, outer and component-wise products, equality and ordering agree with linear algebra on column-major data. "
  "determinant agrees with the Leibniz formula for 2x2, 3x3 and 4x4. "
  "The 4x4 specialisation and its members agree with the general template.",
  ["inputs", "programs"], "every shape and combination of entries in the bound",
  "The tests multiply a few fixed square matrices; a transposed index is invisible on symmetric or square examples.",
  ["include/xme/math/matrix.hpp", "include/xme/math/matrices/matrix4x4.hpp", "include/xme/math/matrices/functions.hpp"],
  [("product loops, cofactor expressions", "include/xme/math/matrices/functions.hpp")], (), ["entries"],
  "exhaustive enumeration of entry grids over all shapes on the implementation against exact reference linear algebra",
  "exploration",
  ASAN + "All 0/1 and small signed grids, which determine any polynomial of degree one in each entry, over all shapes 2..4 x 2..4 (and 5 for the general template)."),
P("C22", "Transforms and projections map the points they are defined by",
  "translate, scale and rotate compose a matrix with the translation, scaling or rotation asked for, applied to a point before that matrix: translate moves every point by the vector, scale multiplies each coordinate, and rotate turns every vector right-handed by the angle about the unit axis, whatever the element types of axis and angle. "
  "perspective (from field of view and aspect ratio, or from the six planes) and ortho map the eight corners of their viewing volume to the corners of the clip cube from -1 to 1, the near plane to -1, symmetric or off-centre, looking down -z for right-handed and +z for left-handed, and map nothing outside to the inside. "
  "The unsuffixed functions are the right-handed ones unless the left-handed configuration is selected.",
  ["inputs", "configurations"], "every axis, angle, vector, matrix, field of view, aspect ratio and plane distance in the bound, in both handedness configurations",
  "No test covers projections, and transformations hardly.",
  ["include/xme/math/matrices/transformation.hpp", "include/xme/math/matrices/perspective.hpp"],
  [("matrix entry formulas", "include/xme/math/matrices/perspective.hpp")], (), ["mapped points"],
  "exhaustive enumeration of parameter grids on the implementation, checked by mapping defining points",
  "exploration",
  ASAN + "Complete over the parameter grids stated in the evidence, within a stated relative tolerance; angles and planes between grid points are not covered."),
P("C23", "Quaternion products, sums and comparisons match their definition",
  "The product of two quaternions is the Hamilton product in that order (with the basis table i*j = k, j*k = i, k*i = j, associative, norm multiplicative), sum and difference are component-wise, operands of another element type are converted to the left one's, and operands are left unchanged. "
  "Construction, named components and indexing agree in the order w, x, y, z, and equality and ordering are those of the components in that order.",
  ["inputs"], "every combination of components in the bound",
  "The tests multiply one pair of quaternions.",
  ["include/xme/math/quaternion.hpp"], [("product formula", "include/xme/math/quaternion.hpp")], (), ["components"],
  "exhaustive enumeration of component grids on the implementation against the basis multiplication table",
  "exploration", ASAN + "All component grids over small integers, which determine the bilinear product; complete over the grids."),
P("C24", "SharedLibrary closes each library it opened exactly once",
  "Over any history of opening, closing, moving, move-assigning, querying and destroying SharedLibrary objects, each successfully opened library is closed exactly once, never used after, and none stays open after its owner is destroyed, closed, or has opened another; is_open says whether one is held, moving transfers it to the new object and leaves the source closed, move assignment gives it to the target while what the target held is closed or handed to the source, and failing to open leaves the object closed. "
  "The library and symbol names passed to the loader are exactly the names given, also when they are parts of longer strings, and a symbol is looked up in the library the object holds and returned unchanged as the requested type.",
  ["histories", "fault_sequences"], "every history over several objects and libraries with every open possibly failing",
  "There is no test.",
  ["include/xme/hal/shared_library.hpp"], [("open/close/move", "include/xme/hal/shared_library.hpp")],
  [("m_library", "the loader handle owned", "include/xme/hal/shared_library.hpp")], ["calls to the dynamic loader"],
  "bounded explicit-state model checking of the implementation over a stubbed dynamic loader that may fail at every open",
  note=ASAN + "All histories to the stated depth; dlopen/dlclose/dlsym are stand-ins that record every call."),
P("C25", "Environment variables read back exactly what was last set",
  "After any history of setting variables, getting one returns the value last set and nothing once it was set to the empty string or never set, the process environment agrees, and other variables are unaffected. "
  "Names and values are taken exactly as given, also when they are parts of longer strings.",
  ["histories", "inputs"], "every history of sets and gets over several names and values",
  "There is no test.",
  ["include/xme/hal/linux/platform.hpp"], [("setenv/unsetenv/secure_getenv", "include/xme/hal/linux/platform.hpp")], (), ["the process environment"],
  "bounded explicit-state model checking of the implementation in lockstep with a map",
  note=ASAN + "All histories to the stated depth in a process of its own."),
P("C26", "AlignedData holds one object at the promised alignment and size",
  "The object an AlignedData holds starts at a multiple of the alignment asked for wherever the AlignedData is placed (in arrays, structures, on the heap or stack), address and data, const or not, refer to that same place, and it is large enough for the object. "
  "Constructing it with arguments constructs exactly one object from exactly those arguments, forwarded, and writes nothing outside it.",
  ["inputs", "programs"], "every element size, alignment and placement in the bound",
  "The tests check one or two instances on the stack.",
  ["include/xme/container/aligned_data.hpp"], [("alignas storage", "include/xme/container/aligned_data.hpp")], (), ["addresses"],
  "exhaustive enumeration of sizes x alignments x placements on the implementation",
  "exploration", ASAN + "Complete over the stated sizes, alignments and placements."),
P("C27", "Scalar functions and constants have their mathematical values",
  "Every mathematical constant equals its mathematical value to the precision of the type it is asked for, float, double and long double. "
  "sign is -1, 0 or 1 for negative, zero and positive numbers of every signed type including extremes and infinities, radians and degrees have their values at every angle and are inverse, and the secondary and inverse trigonometric functions have the values their definitions give, all to a few units of rounding.",
  ["inputs"], "every constant in every type, and every argument in the bound",
  "No test covers the constants or trigonometric functions.",
  ["include/xme/math/constants.hpp", "include/xme/math/scalars/functions.hpp", "include/xme/math/scalars/trigonometry.hpp"],
  [("literals", "include/xme/math/constants.hpp")], (), ["values"],
  "exhaustive enumeration of constants x types, 8- and 16-bit argument domains and argument grids on the implementation against independently computed values",
  "exploration", ASAN + "Reference constants are computed independently (by series and identities in quad precision). 8- and 16-bit sign domains are complete; float arguments are all floats whose low bits are zero (the thorough tier: all floats); wider types take grids."),
P("C28", "SIMD flags: enabling an extension enables exactly it and what it implies",
  "Whatever set of SIMD extensions is enabled, an extension is in use exactly when it or one that builds on it is enabled (AVX512F > AVX2 > AVX > SSE4.2 > SSE4.1 > SSSE3 > SSE3 > SSE2 > SSE > MMX), and the enabled set reported has exactly the bits of the extensions in use. "
  "The supported set reported has exactly the bits of the extensions the compiler targets, and set union and intersection of flags are bitwise.",
  ["configurations"], "every subset of the enabling switches and every compiler target level",
  "The tests are built in one configuration.",
  ["include/xme/hal/simd_detection.hpp"], [("the enabling cascade", "include/xme/hal/simd_detection.hpp")], (), ["XME_SIMD_USE_*, enabled_simd, supported_simd"],
  "exhaustive enumeration of all configurations (every subset of switches, every target level) through the real preprocessor and compiler",
  "exploration", "All 1024 subsets of the ten switches and all target levels are preprocessed and evaluated."),
P("C29", "Type utilities and concepts give the answers of their definitions",
  "forward_like gives the second type the constness and value category of the first for every combination; to_unsigned keeps the bits of every integer; has_single_bit is true exactly for powers of two, for every unsigned type and value. "
  "The concepts for arithmetic types, differing types, constant iterators, tuple-like and pair-like types and allocators, and the traits for scoped enumerations and initializer lists are true for exactly the types of their definition; qualifying a type changes neither whether it is arithmetic nor whether it is a scoped enumeration.",
  ["inputs", "programs"], "every type in the bound and every value of 8- and 16-bit types",
  "The tests check a few types and values.",
  ["include/xme/core/utility/forward_like.hpp", "include/xme/core/utility/to_unsigned.hpp", "include/xme/core/bit/has_single_bit.hpp", "include/xme/core/type_traits/is_scoped_enum.hpp", "include/xme/core/type_traits/is_initializer_list.hpp", "include/xme/core/concepts/arithmetic.hpp", "include/xme/core/concepts/different_from.hpp", "include/xme/core/concepts/constant_iterator.hpp", "include/xme/container/concepts.hpp"],
  [("the definitions", "include/xme/core/utility/forward_like.hpp")], (), ["types and values"],
  "exhaustive enumeration of type tables and complete small value domains on the implementation",
  "exploration", ASAN + "Complete over the type tables and over all 8- and 16-bit values; wider types at all single-bit, neighbour and extreme values."),
P("C30", "Algorithms on raw memory make and destroy exactly the objects asked for, or none",
  "Copying into raw memory makes one object, a copy of its source, at each place until the source or the room ends and returns where both stopped; filling makes exactly the number asked for and returns the end. "
  "When constructing one throws, every object made so far is destroyed again and the exception reaches the caller. Destroying ends exactly the objects named, arrays element by element. "
  "Every construction and destruction goes through the allocator given, and nothing outside is read or written.",
  ["inputs", "fault_sequences"], "every length, room, offset and kind of iterator with every construction possibly throwing",
  "There is no direct test, and no test lets a construction throw.",
  ["include/xme/ranges/uninitialized.hpp", "include/xme/ranges/destroy.hpp"], [("construct with rollback", "include/xme/ranges/uninitialized.hpp"), ("destroy", "include/xme/ranges/destroy.hpp")],
  (), ["objects alive, calls of the allocator, raw memory"],
  "exhaustive depth-first exploration of the implementation over all lengths, rooms, offsets and throw points with self-checking elements between guards",
  note=ASAN + "Lengths, rooms and offsets to 6, every throw point, pointers, forward iterators with sentinels, and ranges."),
P("C31", "A range that derives from IContainer gets members that agree with its iterators",
  "A class derived from IContainer that has begin and end gets operator[], empty, size, front, back and data, const and not, wherever its iterators are strong enough for them and only there: empty and front for multi-pass ranges, back for bidirectional, operator[] for random access and data for contiguous ones, and size where the distance between begin and end is known in constant time. "
  "Each returns exactly what the iterators give (the same element and the same reference type, also for proxies, for ranges ended by a sentinel, for const ranges with elements of their own constness, and for ranges that can only be iterated when not const), for every number of elements; empty, size and data read no element and nothing outside the range is touched.",
  ["histories", "programs"], "every category of iterator, kind of end, constness and number of elements, and every sequence of writes through the members",
  "The tests use the members only of the containers of the library itself.",
  ["include/xme/container/icontainer.hpp"], [("members constrained by range category", "include/xme/container/icontainer.hpp")], (), ["elements referred to, types, presence of members"],
  "bounded explicit-state model checking of the implementation in lockstep with a plain sequence, over all kinds of derived range",
  note=ASAN + "Every combination of five iterator categories, three kinds of end, four forms of constness and an own size(), with every history of resizing and writing through the members to the stated depth."),
P("C32", "Every header can be used alone, again, in any order and in several units",
  "Each header compiles when it is the only one included (with the uses it is for: a part of matrix.hpp or vector.hpp once that is included too), when it is included again, and before or after any other, in every language level, compiler and configuration it supports, and what it declares stays usable. "
  "A program whose translation units include all of them, each in another order, links: no definition is there twice or missing.",
  ["configurations", "programs"], "every header, every ordered pair of headers, every language level and configuration in the bound",
  "Each test includes one or two headers in one order, and is one translation unit per class.",
  ["include/xme/container/container.hpp", "include/xme/math/math.hpp", "include/xme/core/concepts/concepts.hpp", "include/xme/setup.hpp"],
  [("include directives, include guards, inline", "include/xme/setup.hpp")], (), ["compiler and linker diagnostics"],
  "exhaustive enumeration of headers, ordered pairs of headers and configurations through the real compilers and linker",
  "exploration", "All headers alone and all ordered pairs with their uses instantiated; triples only as parts of the three orders of the whole-library program. shared_library.hpp and platform.hpp are not supported by clang."),
P("C33", "Detection macros name the platform, compiler, library and language level",
  "XME_PLATFORM_WINDOWS, _APPLE and _LINUX and XME_ARCH_X86 and _ARM (32-bit) are defined everywhere, true for exactly the operating system and architecture compiled for; XME_COMPILER_CLANG or _GCC is defined exactly when that is the compiler (not both), XME_LIBSTD_CLANG or _GCC exactly when that is the standard library, whatever was included before, and XME_CPP20 or XME_CPP23 exactly when that is the language level. "
  "XME_CONSTEXPR, XME_CONSTEXPR20 and XME_INLINE mean constexpr, constexpr where the level allows it, and inline. DLLEXPORT makes a function visible outside its library and DLLIMPORT refers to one in another library.",
  ["configurations"], "every target, compiler, standard library and language level in the bound",
  "The tests are built by one compiler for one target.",
  ["include/xme/hal/platform_macros.hpp", "include/xme/hal/architecture_detection.hpp", "include/xme/hal/compiler_detection.hpp", "include/xme/hal/std_detection.hpp", "include/xme/setup.hpp", "include/xme/hal/linux/platform_macros.hpp", "include/xme/hal/windows/platform_macros.hpp"],
  [("preprocessor conditions", "include/xme/hal/platform_macros.hpp")], (), ["macro values, generated symbols"],
  "exhaustive enumeration of targets, compilers and language levels through the real preprocessors and compilers",
  "exploration", "37 targets of clang, the native targets of g++, and stand-ins for compilers and libraries that are not installed (MSVC, libc++), by the macros those document. Nothing is promised of XME_ARCH_ARM on 64-bit ARM."),
P("C34", "The modules give the names of the headers, in every combination",
  "Each C++20 module (xme.container, xme.functional, xme.iterators, xme.utility, xme.math, and xme, which gives what all of them give) compiles, and importing it makes the names it exports usable without any header of the library, with the meaning they have in the headers. "
  "That holds for whatever combination of modules is imported, with the headers included before or after as well, and between translation units of which some import and others include, which can hand each other objects.",
  ["configurations", "programs"], "every set of modules imported, alone, before and after the headers, and every exported name",
  "No test imports a module; the build does not even compile them.",
  ["modules/xme.cppm", "modules/container/container.cppm", "modules/core/functional/functional.cppm", "modules/core/iterators/iterators.cppm", "modules/core/utility/utility.cppm", "modules/math/math.cppm"],
  [("export using declarations", "modules/container/container.cppm"), ("export import", "modules/xme.cppm")], (), ["compiler and linker diagnostics, values computed"],
  "exhaustive enumeration of sets of modules and orders of inclusion through the real compiler, each program run",
  "exploration", "All 63 sets of modules in three mixes with the headers; all exported names used in each. clang 18 with libstdc++ (libc++ is not installed, and g++ 13 does not support what the modules use)."),
P("C35", "What goes into a container is made from exactly what was given",
  "emplace_back, emplace_front, emplace_after, Heap::emplace, SPSCQueue::emplace and AlignedData make one element from exactly the arguments given, each the same object and as what it was given (lvalue or rvalue, const or not), without copying anything, also when the container grows or rearranges itself. "
  "Putting in an element given as an lvalue copies it once and leaves it as it is; given as an rvalue it is moved and nothing is copied; anything convertible is converted once; at the end of an Array, in a list and in a queue the element is made where it stays, and nothing is moved but what an Array moves to grow. The elements of a range are each used once in the same way: copied from lvalues, moved from rvalues, taken over when made on the fly. "
  "A push refused by a full queue leaves its argument untouched. Moving, swapping, growing, shrinking, erasing and reversing containers copies no element, and copying one copies each element once.",
  ["inputs", "histories"], "every number and kind of arguments, kind of source range and shape of container",
  "The tests insert ints, for which a copy, a move and a forgotten forward look the same.",
  [A, "include/xme/container/linked_list.hpp", "include/xme/container/heap.hpp", "private/container/spsc_queue_base.hpp", "include/xme/container/aligned_data.hpp"],
  [("emplace and forward", A), ("create_node", "include/xme/container/linked_list.hpp"), ("construct_at", "private/container/spsc_queue_base.hpp")], (),
  ["constructions seen by the elements: addresses, categories, copies and moves"],
  "exhaustive enumeration of argument lists, source ranges and container shapes on the implementation with elements that record how they are made",
  "exploration", ASAN + "Up to three arguments of each of four kinds, ranges of seven kinds to 4 elements (thorough: 5), containers of up to 3 elements with and without room. push_front takes elements only."),
P("C36", "Exceptions thrown by the caller's code come out, and noexcept is true",
  "When an element, callable, allocator or iterator that the caller supplies throws inside an operation of Pair, Tuple (assignment, conversion, swap, make_pair, make_tuple, tuple_cat, apply), a binder, a Delegate or ScopedDelegate, Heap::push and emplace, find over iterators, or an Array, LinkedList or Heap made from, assigned or extended by a range, the exception reaches the caller: the program is not terminated, nothing is leaked or destroyed twice, no element that was there is lost, and the object can be used further (pushes and insertions of ranges into an Array or list leave its own elements in order, with at most the beginning of the range among them; a failed push leaves a Heap as it was). "
  "What may throw depending on the types is noexcept exactly if none of the element operations it performs can throw, for every combination of elements that may and may not: copying, moving, assigning and swapping Pairs and Tuples, make_pair, apply, copying, moving and calling binders as lvalue, const and rvalue, making a ScopedDelegate; nothing else claims noexcept falsely, and moving a Delegate, Array or LinkedList never throws.",
  ["fault_sequences", "programs"], "every operation with each of its element, callable and iterator operations failing in turn, and every combination of operations declared to throw or not",
  "No test throws anything, and a wrong noexcept only shows (by terminating the program) once something does.",
  ["include/xme/container/pair.hpp", "include/xme/container/tuple.hpp", "include/xme/core/functional/bind.hpp", "include/xme/core/functional/delegate.hpp", A, "include/xme/container/linked_list.hpp", "include/xme/container/heap.hpp", "include/xme/ranges/uninitialized.hpp"],
  [("noexcept specifications", "include/xme/container/pair.hpp"), ("noexcept specifications", "include/xme/core/functional/bind.hpp"), ("catch blocks", A), ("delegating constructors", "include/xme/container/linked_list.hpp")], (),
  ["exceptions", "registry of live elements and blocks", "values of noexcept expressions"],
  "exhaustive fault enumeration on the implementation (every fault point of every operation) and exhaustive enumeration of instantiations for noexcept",
  "exploration", ASAN + "Tuples to 5 elements, containers to 3 elements and 4 spare, ranges to 3 of three iterator categories with and without sentinels; noexcept for every combination over up to three elements and 128 kinds of callable. Operations that are noexcept for all types (comparisons, Heap::pop, reverse, find of a range, AlignedData) are taken at their word. Copying an iterator does not throw."),
P("C37", "What is constexpr can be evaluated at compile time, to the same result",
  "Array, Heap, ArrayView, their iterators and ReverseIterator, Pair, Tuple, binders, ScopedDelegate, IContainer, find and reverse (with and without SIMD), the bit, type and utility functions, and vectors, matrices and quaternions work in constant expressions: every history of operations on them evaluates, "
  "with nothing that constant evaluation rules out (undefined behaviour, reading what was never written, going outside an object, a leak or a double destruction, converting pointers), for elements that own memory or can only be moved as well, and gives what it gives at run time. Functions that go through the mathematical functions of the standard library do so where the compiler evaluates those.",
  ["operation_histories", "programs"], "every history of operations up to a depth, run by the constant evaluators of real compilers and again at run time",
  "Hardly a test evaluates anything at compile time, and templates lose constexpr silently.",
  [A, "include/xme/container/heap.hpp", "include/xme/container/array_view.hpp", "include/xme/container/pair.hpp", "include/xme/container/tuple.hpp", "include/xme/core/functional/bind.hpp", "include/xme/core/algorithm/find.hpp", "include/xme/core/algorithm/reverse.hpp", "include/xme/core/iterators/reverse_iterator.hpp", "include/xme/math/math.hpp", "include/xme/math/quaternion.hpp"],
  [("constexpr member functions", A), ("std::is_constant_evaluated", "include/xme/core/algorithm/find.hpp"), ("std::is_constant_evaluated", "include/xme/math/quaternion.hpp")], (), ["diagnostics of the constant evaluators", "values at compile time and at run time"],
  "exhaustive enumeration of operation histories on the implementation, executed by the constant evaluators of g++ and clang (which detect undefined behaviour and leaks) against a model",
  "exploration", "Histories of 26 operations on an Array from four starts to depth 3, of 5 on a Heap to depth 5; all subviews of 6, all pairs of positions of up to 5, all lengths to 70 and positions for find and reverse; g++ 13 and clang 18 in C++20 and 23. LinkedList, AlignedData, SPSCQueue and Delegate go through raw storage that no C++20 evaluator accepts."),
P("C38", "Containers, views and iterators work as ranges of the standard and range-v3",
  "Array, LinkedList, Heap, ArrayView and ranges of ReverseIterator and ConstIterator are ranges of the strength they are meant to have (forward for LinkedList, bidirectional or random access for the others; sized, common, borrowed, view, writable or constant as documented), for the standard library and for range-v3 alike, "
  "with iterators whose associated types are those generic code relies on. Algorithms over iterators, constrained algorithms and range adaptors of both libraries return, output and leave behind on them exactly what they do on a standard container of the same contents.",
  ["operation_histories", "inputs"], "every sequence of three keys up to a length and longer ones of seven shapes, in every kind of range, through every algorithm and adaptor listed",
  "Tests apply a handful of algorithms to a handful of contents; an associated type or an iterator operation that is wrong shows only in the algorithm that uses it.",
  [A, "include/xme/container/linked_list.hpp", "include/xme/container/heap.hpp", "include/xme/container/array_view.hpp", "include/xme/core/iterators/reverse_iterator.hpp", "include/xme/core/iterators/const_iterator.hpp", "include/xme/core/iterators/iterator_traits.hpp"],
  [("Array::Iterator", A), ("LinkedListIterator", "private/container/linked_list_base.hpp"), ("enable_view and enable_borrowed_range", "include/xme/container/array_view.hpp")], (), ["return values, outputs and contents left behind", "concepts modelled"],
  "exhaustive enumeration of contents, kinds of range and algorithms on the implementation, differential against the same algorithm on a standard container",
  "exploration", "All sequences over three keys up to length 6 (thorough: 9) and 42 longer ones; about 90 reading, 38 writing algorithms and 30 adaptors on 14 kinds of range; all pairs of sequences up to length 3 for algorithms over two ranges; concepts for 8 types of element."),
P("C39", "Objects share nothing: reading writes nothing, writing touches one object only",
  "An operation that is const, or a function of constant arguments, writes nothing but its own stack and what it returns: neither the object, nor what the object owns, nor data of the program. An operation that changes an object reads and writes only that object and its own memory, whatever the object was copied, moved, assigned or swapped from or to before, and no data of the program. "
  "So any number of threads may read one object, and threads that use different objects need no synchronisation, in every interleaving.",
  ["schedules", "operation_histories"], "every operation of every component in every state up to a size and in nine relations to another object, with every memory access outside of what it may touch trapped",
  "No test uses two threads on anything but a queue, and a hidden cache or buffer is right in every sequential test.",
  [A, "include/xme/container/linked_list.hpp", "include/xme/container/heap.hpp", SP, "include/xme/container/pair.hpp", "include/xme/container/tuple.hpp", "include/xme/core/functional/delegate.hpp", "include/xme/core/functional/bind.hpp", "include/xme/core/algorithm/find.hpp", "include/xme/core/algorithm/reverse.hpp", "include/xme/math/math.hpp"],
  [("const member functions", A), ("write_available", SP), ("AnyData", "include/xme/core/functional/delegate.hpp")], (), ["memory protection faults", "results of the operation"],
  "exhaustive enumeration of transitions (operation, state, relation to another object) with the memory footprint of each checked by page protection; transitions of different threads are thereby independent, and by partial-order reduction the one schedule explored stands for every interleaving",
  "exploration", "Containers of up to 5 elements (thorough: 8) with and without spare capacity, of integers and of elements that own memory; queues in all states of 4 slots; buffers of up to 80 elements (thorough: 200) of five types for find, reverse and raw memory in four SIMD configurations; vectors, matrices, quaternions, transforms. What is initialised on first use is let pass, as is thread-local data. SharedLibrary and the environment are global by nature."),
]

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    import run
    checks, na = [], []
    for p in PROPS:
        if p["id"] in run.CHECKS:
            checks.append({"property": p["id"], "quick_cmd": f"python3 mc/run.py {p['id']}",
                           "thorough_cmd": f"env VERIF_TIER=thorough python3 mc/run.py {p['id']}",
                           "evidence_file": f"evidence/{p['id']}.json",
                           "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 mc/run.py --setup",
         "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's headers as they are", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Every check compiles /repo's working tree and explores it exhaustively within bounds."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
