I, H, F, S, CP, PR, CF = "inputs", "histories", "fault_sequences", "schedules", "crash_points", "programs", "configurations"
UC = "Its harness is under construction: not claimed yet."
PROPS = [
 dict(id="C01", title="Integer power is exact or reports overflow/underflow",
  statement="For every base and exponent of any integer types, integer power returns the mathematically exact value of base^exponent in the base's type whenever that value is representable (0^0 and 0^negative follow the documented convention: x^0 is 1, negative exponents of |base|>1 and of 0 truncate to 0, powers of 1 and -1 are exact). If the exact value exceeds the maximum it throws overflow_error, if it is below the minimum it throws underflow_error, and it never does anything else (no wrong value, no undefined behaviour, no spurious exception).",
  over=[I], quant="every base value and every exponent value of signed and unsigned 8- to 64-bit integer types (see the harness for which combinations are fully symbolic)",
  why="The tests try a few dozen constants; the overflow thresholds differ per exponent and type, and an error in one squaring step shows only for particular (base, exponent) pairs.",
  files=["ipow.hpp"], mech=[("ipow", "include/dice/template-library/ipow.hpp: ipow")]),
 dict(id="C02", title="variant2 holds exactly one live alternative, or is valueless",
  statement="After any sequence of constructions, copy/move/value assignments, emplacements, swaps (including with itself) and destructions, a two-alternative variant reports through index, holds_alternative, get, get_if and visit exactly the alternative and value last stored in it, or the valueless state after a throwing construction, and accesses to the other alternative throw or return null. Every stored element is constructed once, used only while alive, and destroyed once, even when element constructors or assignments throw; a throwing element assignment keeps the alternative; only the element's own exceptions come out, and they always do. A valueless variant can be assigned, emplaced, copied, swapped and destroyed like any other.",
  over=[H, F], quant="every start state (first, second, valueless) of two variants and every sequence of up to two operations on them, with any element operation throwing, over element types with each combination of throwing/non-throwing/trivial copy and move",
  why="Tests use a handful of types and never make element operations throw in the middle of assignments or swaps; the state space is (states x operations x throw points x element type traits).",
  files=["variant2.hpp"], state=[("discriminant", "which alternative lives in the storage", "variant2.hpp discriminant_")],
  mech=[("assignment, emplace, swap", "include/dice/template-library/variant2.hpp")]),
 dict(id="C03", title="variant2 comparison and hashing agree with its alternatives",
  statement="Two-alternative variants compare equal exactly when they hold the same alternative with equal values (or both are valueless); their ordering is valueless < first < second and then the order of the contained values, with the comparison category the common category of the alternatives, so it is transitive and consistent with equality for strongly ordered alternatives. Hashing never throws, works for valueless variants, and equal variants hash alike.",
  over=[I], quant="every pair (triple for transitivity) of variants over integer, floating point, weakly and partially ordered alternatives including valueless ones",
  why="Tests compare a few constants; unordered, valueless and mixed-alternative combinations are not enumerated.",
  files=["variant2.hpp"], mech=[("operator==, operator<=>, std::hash", "include/dice/template-library/variant2.hpp")]),
 dict(id="C04", title="flex_array behaves as a bounded sequence in every mode",
  statement="A flex_array (static size, dynamic size up to a maximum, or unbounded dynamic size) contains exactly the elements it was constructed from (initializer list, iterator range including single-pass input iterators, copy, move, conversion between modes) and changed by element writes, assignment, resize and swap; size, iteration in both directions, indexing, data, span conversion, equality and lexicographical ordering all agree on that sequence. Sources that do not fit a bounded mode are rejected with length_error and resizes beyond the maximum with invalid_argument, without writing outside the storage; exactly those are rejected.",
  over=[I, H], quant="every source of 0..6 elements with every element value, every requested new size, histories of up to 3 operations",
  why="Tests use fixed element lists; off-by-one errors at the maximum size, stale elements after shrinking, and single-pass iterators are not covered systematically.",
  files=["flex_array.hpp"], mech=[("construction, resize, comparison", "include/dice/template-library/flex_array.hpp")]),
 dict(id="C05", title="static_string owns its characters under any allocator",
  statement="An immutable-length string (of 1-, 2- or 4-byte characters) holds exactly the characters it was constructed, copied, moved or assigned from, through all accessors and iterators, independent of later changes to the source, and compares with strings and string views like the character sequences do. Every block it allocates is released exactly once, with the size it was allocated with, by an equal allocator, for every combination of allocator propagation traits and equality. If an allocation fails, the exception comes out, nothing leaks and the assigned-to string still has its old content.",
  over=[I, F, H, CF], quant="every content of 0..3 characters, every allocator propagation/equality configuration, any single failing allocation, histories of up to 3 operations",
  why="Tests use std::allocator, a few literals, and never fail an allocation or use unequal allocators with all propagation combinations.",
  files=["static_string.hpp"], mech=[("assignment, allocation", "include/dice/template-library/static_string.hpp")]),
 dict(id="C06", title="Pool memory is disjoint, aligned, large enough and returned",
  statement="Every block obtained from a memory pool or pool allocator is at least as large as requested, aligned for its element type, and does not overlap any other live block, whether it comes from a bucket or from the fallback, for any history of allocations and deallocations and any request size; its contents stay intact until it is released. A request that cannot be satisfied (upstream allocation failure, or an element count whose byte size does not fit) throws a bad_alloc and changes nothing. Copies, rebinds and moved-from pool allocators share the pool, compare equal, can release each other's memory, and keep the pool alive; all memory is returned when the last of them is gone.",
  over=[I, H, F], quant="every request size around the bucket sizes, every element count including overflowing ones, histories of up to 5 (7) operations, growth beyond one arena chunk, failing upstream allocations",
  why="Tests allocate a few fixed sizes; bucket boundaries, reuse after free, overflow and over-aligned types are not covered.",
  files=["pool_allocator.hpp"], mech=[("bucket selection", "include/dice/template-library/pool_allocator.hpp: pool::allocate_impl/deallocate_impl"), ("pool_allocator", "include/dice/template-library/pool_allocator.hpp")]),
 dict(id="C07", title="limit_allocator never lets more than its limit be outstanding",
  statement="The bytes obtained through a limit allocator and all its copies, rebinds, and moved-from originals and not yet returned never exceed its limit, under any interleaving of concurrent allocations and deallocations, and an allocation that fits in the remaining limit succeeds whenever the upstream allocator succeeds. A refused or upstream-failed allocation throws a bad_alloc and leaves the remaining limit unchanged, a request whose byte size does not fit in size_t is refused, and every deallocation returns the memory upstream before its bytes become available again. Allocators sharing a limit compare equal, those that do not compare unequal, and swapping exchanges both the limit and the upstream allocator.",
  over=[I, H, S, F], quant="every limit and element count, histories of up to 4 operations, all interleavings of 2 threads (3 in the thorough tier), failing upstream allocations",
  why="Concurrent tests run a few schedules; the compare-exchange retry path, wrap-around of the accounted size and failing upstream allocators are hardly reached.",
  files=["limit_allocator.hpp"], state=[("bytes left", "limit minus outstanding bytes", "limit_allocator.hpp bytes_left")], mech=[("control block", "include/dice/template-library/limit_allocator.hpp")]),
 dict(id="C10", title="channel is a linearizable bounded queue that loses no wake-up",
  statement="Under every interleaving of producers, consumers and closers, every push, emplace, try_push, try_emplace, pop, try_pop, close and closed on a channel takes effect atomically between its call and its return, as on a FIFO queue with the given capacity: a blocking push waits exactly while the channel is full and open, a blocking pop exactly while it is empty and open, the try variants never wait, close releases everyone, a closed channel accepts nothing and can be drained. No element is lost, duplicated, reordered or changed, no thread waits forever while it could proceed, there is no data race, and every element object is destroyed exactly once. Iterating pops every element until the channel is closed and empty. An operation that fails with the element's exception leaves the channel's contents as they were and costs nobody a wake-up.",
  over=[S, H, I, F], quant="every capacity, any one operation against any two (thorough: any two against any two) plus a close at any time, ten programs of up to three threads and the main thread, iteration, throwing elements; every interleaving with up to two (thorough: three) preemptions and every choice of the woken waiter",
  why="Tests run a handful of schedules; a missing notification, a wrong wait condition or an unlocked access only shows in particular interleavings of at least three operations.",
  files=["channel.hpp"], state=[("queue, closed flag", "pending elements and whether pushing is over", "channel.hpp channel")], mech=[("push/pop/close", "include/dice/template-library/channel.hpp"), ("iterator", "include/dice/template-library/channel.hpp: channel_iterator")]),
 dict(id="C11", title="exchange_channel is a linearizable last-value slot",
  statement="Under every interleaving of producers, consumers and closers, every push, emplace, pop, try_pop, close and closed on an exchange channel takes effect atomically between its call and its return, as on a slot that keeps only the element pushed last: a push never waits and replaces the element that was not yet popped, a pop takes the element out and waits exactly while the slot is empty and open, try_pop never waits, a closed channel accepts nothing and its last element can still be popped. No popped element is stale, duplicated or changed, no thread waits forever while it could proceed, there is no data race, and every element object is destroyed exactly once. Iterating pops until the channel is closed and empty. A pop that fails with the element's exception leaves the element available and costs nobody a wake-up.",
  over=[S, H, I, F], quant="any one operation against any two (thorough: any two against any two) plus a close at any time, seven programs of up to three threads and the main thread, iteration, throwing element moves; every interleaving with up to two (thorough: three) preemptions and every choice of the woken waiter",
  why="Tests run a handful of schedules; a stale value, a missing notification or an unlocked access only shows in particular interleavings.",
  files=["exchange_channel.hpp"], state=[("slot, closed flag", "the last pushed element and whether pushing is over", "exchange_channel.hpp exchange_channel")], mech=[("push/pop/close", "include/dice/template-library/exchange_channel.hpp")]),
 dict(id="C12", title="mutex and shared_mutex guards own exactly the lock they promise",
  statement="The value inside a mutex or shared_mutex is only reachable through a guard, and the underlying lock (of any lock type) is held, exclusively or shared, exactly while a guard owns it: obtained by lock, try_lock, lock_shared, try_lock_shared, transferred by move construction, move assignment and swap of guards, released exactly once when the owning guard is dropped or assigned over. try_lock and try_lock_shared succeed exactly when the lock is available and return nothing otherwise; exceptions of the lock come out and leave nothing locked. A guard always refers to the value of the mutex it owns, every reader sees the value written last, and no interleaving of threads deadlocks, races or lets a writer overlap with anyone. The value is constructed exactly as requested (default, copy, move, in place).",
  over=[S, H, I, F], quant="histories of 3-4 (thorough: 4-5) operations on two mutexes and two guards of each kind with failing locks; two threads with two critical sections each or three with one, all interleavings with up to 3 (thorough: 6) preemptions; symbolic values",
  why="Tests lock and unlock in one thread; moved, swapped and assigned-over guards, other lock types and contention are hardly covered.",
  files=["mutex.hpp", "shared_mutex.hpp"], state=[("lock_", "which lock a guard owns", "mutex.hpp mutex_guard, shared_mutex.hpp shared_mutex_guard")], mech=[("mutex::lock/try_lock", "include/dice/template-library/mutex.hpp"), ("shared_mutex::lock/lock_shared", "include/dice/template-library/shared_mutex.hpp")]),
 dict(id="C08", title="Polymorphic allocators return memory to the allocator it came from",
  statement="A polymorphic_allocator (of one, two or more alternatives) behaves exactly like the wrapped allocator it was given, by in-place type or index construction, from an allocator, by default construction (the first alternative), copy, move, rebind, assignment, swap or select_on_container_copy_construction: holds_allocator names that alternative, allocate and deallocate pass element count, pointer and exceptions through to it unchanged, two allocators are equal exactly when they hold the same alternative with equal allocators, and containers using them give every block back to an equal allocator of the alternative it came from. It propagates on copy assignment, move assignment or swap exactly when all alternatives do, and is always equal only with a single always-equal alternative. An offset_ptr_stl_allocator does the same for the one allocator it wraps, handing out offset pointers to the very memory that allocator gave.",
  over=[I, H, F, CF], quant="every identity of the wrapped allocators and every element count, lists of one, two and three alternatives and offset_ptr wrapped ones, histories of 3 (thorough: 4) operations on two allocators, every allocation may fail, vectors with every pair of alternatives",
  why="Tests use std::allocator and one pmr allocator with a few copies; a wrong alternative after rebinding, assignment or swap needs stateful allocators of several kinds.",
  files=["polymorphic_allocator.hpp"], state=[("alloc_", "the held alternative", "polymorphic_allocator.hpp alloc_")], mech=[("polymorphic_allocator", "include/dice/template-library/polymorphic_allocator.hpp"), ("offset_ptr_stl_allocator", "include/dice/template-library/polymorphic_allocator.hpp")]),
 dict(id="C09", title="inplace_polymorphic holds one live object or is valueless",
  statement="After any sequence of default and in-place constructions, copies, moves, assignments (including copy self-assignment) and emplacements, an inplace_polymorphic gives access, through all its accessors and virtual calls, to exactly the object of the type and value last stored in it, which lives inside it and is constructed once and destroyed once. If a constructor, copy_to or move_to throws, exactly that exception comes out and the target is left valueless; a valueless object throws bad_variant_access on every access and can be assigned, copied, moved from, emplaced and destroyed. It is copyable exactly if its base has copy_to and movable exactly if it has move_to. This holds for throwing and non-throwing bases and for trivially destructible types.",
  over=[H, F, I], quant="two objects in every start state (three types, valueless), every history of 2 (thorough: 3) operations, any one constructor, copy_to or move_to throwing per operation, symbolic values",
  why="Tests cover single operations; a value that is not dropped, dropped twice or believed valueless needs particular sequences with throwing elements and particular type traits.",
  files=["inplace_polymorphic.hpp"], state=[("valueless_", "whether an object lives in the storage", "inplace_polymorphic.hpp valueless_")], mech=[("drop, copy_from, move_from, emplace", "include/dice/template-library/inplace_polymorphic.hpp")]),
 dict(id="C13", title="Scope guards run exactly when their condition is met, once, in reverse order",
  statement="A defer block, or a guard made by make_scope_exit_guard, make_scope_fail_guard or make_scope_success_guard, calls its function exactly once when its scope is left and its condition is met (always; only by an exception leaving this scope; only without one), and never otherwise, in reverse order of construction. This holds for early returns, nested scopes, exceptions caught inside the scope, scopes run by destructors during unwinding of another exception, and success functions that themselves throw. The function object is copied from an lvalue or moved from an rvalue, destroyed once, and guards cannot be duplicated; a default constructed guard does nothing.",
  over=[H, F, I], quant="programs of up to 3 (thorough: 4) nested scopes of six kinds with symbolic conditions and throwing success functions; three guard kinds, three ways of construction, throwing function copies",
  why="Tests use single scopes; guards inside destructors during unwinding, mixed with caught and rethrown exceptions, need nested programs.",
  files=["defer.hpp"], mech=[("ScopeExitGuard", "include/dice/template-library/defer.hpp")]),
 dict(id="C14", title="pointer_tag_pair packs and returns pointer and tag unchanged",
  statement="A pointer_tag_pair gives back exactly the pointer (converted to the pair's pointee type, for derived objects and over-aligned promises as well) and the tag it was built from, through pointer, tag, get and structured bindings, for every suitably aligned address and every tag that fits the requested bits, of integer, bool and enum types; it is as large as a pointer, its tagged pointer is the pointer with the tag in its low bits and any tagged word round-trips through from_tagged. Null pointers carry tags too. Two pairs are equal exactly if pointer and tag are, are ordered by pointer and then tag, and swap exchanges them.",
  over=[I], quant="every 64-bit address of the promised alignment and every fitting tag, 16 instantiations from 0 to 12 bits; objects with base classes at other offsets",
  why="Tests use one array address and one tag; a mask that is one bit off only shows for particular addresses and tags.",
  files=["pointer_tag_pair.hpp"], mech=[("pointer_tag_pair", "include/dice/template-library/pointer_tag_pair.hpp")]),
 dict(id="C15", title="switch_cases runs exactly the case of the runtime value",
  statement="switch_cases calls its function exactly once, with the compile-time constant (of the condition's type) equal to the runtime value, if that value lies in the half-open range between the smaller and the larger bound (zero and the bound if only one is given), and otherwise calls only the default function, once. The result of the called function, reference or value, is returned unchanged, its exceptions come out, lvalue, const and rvalue functions are called as such without being copied, only cases in the range are instantiated, and switches nest. switch_bool does the same for both booleans.",
  over=[I], quant="every runtime value of 14 integer types and ranges of up to 300 cases, ascending, descending, empty and at the limits of the type",
  why="Tests walk a few values of an int range; ends of the range, other integer types and extreme values are not covered.",
  files=["switch_cases.hpp"], mech=[("switch_cases, execute_case, switch_bool", "include/dice/template-library/switch_cases.hpp")]),
 dict(id="C16", title="Standard layout and integral tuples store, compare and slice their elements",
  statement="A standard_layout_tuple or integral_template_tuple holds one independent element per type or index, constructed from the corresponding argument (or all from the same one with uniform_construct, which is never moved from), constructed once and destroyed once even if an element throws; get by index or type refers to that element with the reference category and constness of the tuple, visit goes through all elements in order and returns the last result. Tuples are copied, moved, assigned and swapped element by element and compare equal and lexicographically like their elements, with partial orders staying partial. A subtuple refers to the very elements of the original tuple, and assigning to it changes these and no others. An integral tuple covers its range ascending or descending, with the bounds' type, to the limits of that type.",
  over=[I, F], quant="every element value for tuples of up to 5 elements, every subtuple of six tuples, integral tuples over six ranges, one throwing element operation",
  why="Tests use single values; layout dependent subtuples, mixed comparison categories and throwing elements are not covered.",
  files=["standard_layout_tuple.hpp", "integral_template_tuple.hpp", "integral_sequence.hpp"], mech=[("get, subtuple, comparison", "include/dice/template-library/standard_layout_tuple.hpp"), ("visit, get, subtuple", "include/dice/template-library/integral_template_tuple.hpp")]),
 dict(id="C17", title="integral_template_variant holds exactly one alternative of its range",
  statement="An integral_template_variant over a range of indices (ascending or descending, of any integer type) holds at any time exactly one T<ix> with ix in the range: the one it was constructed, assigned or emplaced with (the first one if default constructed), and index, get, get_if, holds_alternative and visit agree on it and on its value with the right constness and reference category; access to another index throws or gives null and an index outside does not compile. Copies, moves and swaps carry index and value over and leave the other variant as it was, comparisons and hashes agree with index and value, and element objects are constructed and destroyed exactly once; exceptions of elements come out of the operation.",
  over=[H, F, I], quant="five ranges, every start alternative, every history of 2 (thorough: 3) operations on two variants, symbolic values, throwing element constructors",
  why="Tests use one ascending int range; index mapping errors show for descending or offset ranges, and lifetime errors only for particular operation sequences with throwing elements.",
  files=["integral_template_variant.hpp", "integral_sequence.hpp"], mech=[("visit, get, emplace", "include/dice/template-library/integral_template_variant.hpp")]),
 dict(id="C18", title="Compile-time loops and tuple algorithms visit every element once, in order",
  statement="for_types, for_values, for_range, make_integer_sequence and the tuple algorithms (tuple_for_each, tuple_fold, tuple_type_fold, tuple_apply and the like) visit every type, value or element of their argument exactly once, in order (descending ranges downwards), with the value's own type and constness and reference category of the element; nothing is visited for empty ranges; an exception of the function stops the loop and comes out; a fold combines the results left to right from its initial value, which it leaves alone, and returns its result by value. Changes made through the visited references are made to the elements themselves.",
  over=[I, F, H], quant="eleven integer ranges (up to 40 elements and at the limits of narrow types), every element value of tuples of four kinds with up to 4 elements, functions that throw at any step",
  why="Tests use short ascending int ranges and never look at reference categories, lifetimes of accumulators or exceptions in the middle.",
  files=["for.hpp", "integral_sequence.hpp", "tuple_algorithm.hpp"], mech=[("for_range, make_integer_sequence", "include/dice/template-library/for.hpp, integral_sequence.hpp"), ("tuple_fold, tuple_for_each", "include/dice/template-library/tuple_algorithm.hpp")]),
 dict(id="C19", title="range() produces exactly the arithmetic sequence, in both directions",
  statement="range(stop), range(start, stop) and range(start, stop, step) contain exactly the elements start + k * step that lie before stop in the direction of the step, computed without overflow up to the limits of the element type: size, empty, indexing, front, back, forward and reverse iteration, skipping (+=, advance, nth, nth_back) and any mixture of taking elements from both ends agree with that sequence, an exhausted range stays exhausted, a stop that is not ahead gives an empty range, and a zero step is rejected with std::invalid_argument. Element types that are not integers work the same way going forward.",
  over=[I, H], quant="every start, stop and step of 8-bit types, every start and stop of 16- to 64-bit types with steps from tables that include the extreme ones, every offset; the first elements from both ends, short ranges completely, histories of 3 (thorough: 4) operations from both ends",
  why="Tests use small int ranges; stepping past the limits of the type, unsigned types with negative steps, and taking elements from behind when the step does not divide the distance are not covered.",
  files=["ranges.hpp", "next_to_range.hpp"], mech=[("range_iterator next, next_back, nth, nth_back, remaining", "include/dice/template-library/ranges.hpp ranges_algo_detail::range_iterator")]),
 dict(id="C20", title="Range algorithms give the mathematically right answer for every kind of range",
  statement="all_of, any_of, none_of, empty, non_empty, all_equal, all_distinct, unique, remove_element, is_sorted_unique and lexicographical_compare_three_way return exactly what their definition says for the sequence of elements, with the given or default predicate or comparator, whether the elements come from a contiguous, forward, single-pass or move-only range, view or iterator pair, called directly, with iterators or with the pipe operator; single-pass elements are read at most once, nothing behind the end is read, filtering algorithms keep exactly the right elements in order and leave the source alone.",
  over=[I], quant="every sequence of up to 4 (thorough: 5) elements with every value, four kinds of ranges, three call forms",
  why="Tests use a few vectors; single-pass ranges, proxies, equal neighbours at the ends and empty ranges are hardly covered.",
  files=["ranges.hpp"], mech=[("all_of .. is_sorted_unique, unique, remove_element", "include/dice/template-library/ranges.hpp")]),
 dict(id="C21", title="opt_min, opt_max and opt_minmax find the extremes of the present elements",
  statement="opt_min, opt_max, opt_minmax and their _element versions for ranges and iterators ignore absent optionals and return no value exactly if no element is present; otherwise they return (a copy of) a smallest or largest present element under the given or default order, the first one among equal ones for min and max, for two arguments, initializer lists, and every kind of range; the source is left alone.",
  over=[I], quant="every sequence of up to 4 (thorough: 5) elements with every key and presence, four kinds of ranges, three call forms, three comparators",
  why="Tests use a few constants; combinations of absent, equal and extreme elements are not enumerated.",
  files=["opt_minmax.hpp"], mech=[("opt_min, opt_max, opt_minmax", "include/dice/template-library/opt_minmax.hpp")]),
]
PROPS.append(
 dict(id="C22", title="next_to_iter and next_to_range expose exactly the rust-style sequence",
  statement="The C++ iterators, ranges and views made from a rust-style iterator yield exactly the elements its next (or, backwards, next_back) returns, in order and once each, and then compare equal to the sentinel and stay there; incrementing, post-incrementing, skipping by any offset with += and +, and peeking (before any of these) agree on the position, and peeking does not move. Copies of iterators are independent of each other, moving keeps the position, begin and rbegin always start a fresh iteration; size, empty, bool, front, back, indexing, advance and reversed agree with the sequence, ranges work with the standard algorithms and adaptors, and move-only rust-style iterators work too. If next throws, the exception comes out and the iterator stays at its element.",
  over=[H, I, F], quant="sequences of up to 4 (thorough: 5) elements, histories of 3 (thorough: 4) operations on two iterators, every offset, six kinds of rust-style iterators in both directions, next throwing at any call",
  why="Tests iterate one or two sequences; mixing peek, skip, copies and the end of the sequence is not covered.",
  files=["next_to_range.hpp"], state=[("cur_, peeked_", "current and peeked element", "next_to_range.hpp next_to_iter_impl")], mech=[("advance, advance_by, peek", "include/dice/template-library/next_to_range.hpp next_to_iter_impl"), ("next_to_range, next_to_view", "include/dice/template-library/next_to_range.hpp")]),
)
PROPS += [
 dict(id="C23", title="DICE_SANDBOX runs code once in a child and reports how it ended",
  statement="A DICE_SANDBOX block runs exactly once, in a new process in which every signal has its default disposition and none is blocked, never in the parent, and never returns into the code after it: the child exits with the block's result (0 for void blocks) after its output was written, and an exception aborts it. The parent waits for exactly this process, however often waiting is interrupted, and returns success for exit code 0, failure for any other code, and otherwise the signal that ended it; its own signal handlers and mask are left alone and buffered output is never duplicated. If the process cannot be created or waited for, the error of the operating system is thrown as std::system_error.",
  over=[I, F], quant="every wait status, exit code, pid and errno, failing fork and waitpid, interrupted waits, void and int blocks that return or throw",
  why="Tests run a few real processes: interrupted or failing system calls, most signals and statuses, blocked signals and unflushed buffers cannot be produced reliably.",
  files=["sandbox.hpp"], mech=[("operator+, clear_all_signal_handlers, flush_all_streams", "include/dice/template-library/sandbox.hpp")],
  note="The operating system is replaced by a model of its calls in the harness."),
 dict(id="C24", title="fmt_join, format_to_ostream and DICE_DBG write exactly the formatted values",
  statement="Formatting fmt_join(range, separator) writes every element of the range in order, each with the given format specification, and the separator exactly between them, for every kind of input range (also temporary, filtered and single-pass ones and initializer lists), for separators that are characters, literals, strings or views, narrow or wide. Streaming a formattable type without an own operator<< writes what std::format gives for it, leaves failed streams alone, reports failing writes in the stream's state and lets exceptions of the formatter out; types with an own operator<< keep it. variant2 formats as variant(value) or variant(valueless by exception) and static_string streams exactly its characters. DICE_DBG evaluates its expression once, prints file, line, expression and value to std::cerr and returns the value with its category unchanged.",
  over=[I, F], quant="every content of up to 3 (thorough: 4) elements and separators of up to 2 characters, eight kinds of ranges, every stream state and a buffer failing at any character",
  why="Tests format a few constants; separators of other types, ranges that are not iterable when const, wide characters and failing streams are not covered.",
  files=["fmt_join.hpp", "format_to_ostream.hpp", "dbg.hpp", "macro_util.hpp", "variant2.hpp", "static_string.hpp"], mech=[("formatter<joiner>", "include/dice/template-library/fmt_join.hpp"), ("operator<<", "include/dice/template-library/format_to_ostream.hpp"), ("DICE_DBG", "include/dice/template-library/dbg.hpp")]),
 dict(id="C25", title="Function helpers call the right function with the right arguments",
  statement="bind_front calls its function exactly once with the bound arguments (copied or moved once when binding, passed with the category and constness of the wrapper) followed by the call arguments, forwarded unchanged, and returns its result unchanged; it is noexcept exactly if the call is. overloaded and match call exactly the function for the variant's alternative with the variant's category and constness and return its result. DICE_MEMFN calls the member function of the current object with the given arguments, then the call arguments. forward_like gives its argument the constness and category of the other type, DICE_MOVE_IF_VALUE moves exactly from non-const values and rvalue references. Exceptions come out.",
  over=[I, F], quant="every value of the arguments, 0 to 3 bound and call arguments of every category, four kinds of wrapper access, variants of 2 to 4 alternatives",
  why="Tests call with a few constants; rvalue and const wrappers, throwing copies and reference results are hardly covered.",
  files=["functional.hpp", "overloaded.hpp", "memfn.hpp", "type_traits.hpp"], mech=[("bind_front", "include/dice/template-library/functional.hpp"), ("match", "include/dice/template-library/overloaded.hpp"), ("DICE_MEMFN", "include/dice/template-library/memfn.hpp")]),
 dict(id="C26", title="Fixed-size integer literals have exactly the value that is written",
  statement="Every literal with one of the suffixes _u8, _i8, _u16, _i16, _u32, _i32, _u64, _i64, _usize, _isize, _uptr, _iptr has the named type and, if the written value fits that type, exactly that value; using it never throws.",
  over=[I], quant="every 64-bit value for each of the twelve literals", why="Tests use one constant per suffix; a narrowing through a smaller type shows only for large values.",
  files=["stdint.hpp"], mech=[("literal operators", "include/dice/template-library/stdint.hpp")]),
 dict(id="C27", title="Type lists and type traits compute what they say",
  statement="type_list operations (concatenation, application, filtering, folding, indexing, sorting out duplicates and the like), lazy_conditional and the traits is_zst, copy_const, copy_volatile, copy_cv, copy_reference, copy_cvref and is_strict_invocable_r give, for every list of types, the list or type their documentation promises, instantiating only what is selected.",
  over=["programs"], quant="every list of types", why="Tests cover a few lists.",
  files=["type_list.hpp", "lazy_conditional.hpp", "type_traits.hpp"], mech=[("type_list", "include/dice/template-library/type_list.hpp"), ("lazy_conditional", "include/dice/template-library/lazy_conditional.hpp")],
  na="Pure compile-time metaprogramming: there is no code in the compiler's intermediate representation that could be executed symbolically; types are not values an SMT solver could range over here."),
]
