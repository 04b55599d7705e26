# One table for properties.jsonl and MANIFEST.json (bin/mkmeta.py writes both).
S = "src/estd/"
FULL = "Complete for the instantiated type and capacity: loop-free or fully unrolled with unwinding obligations. "
PROOF = "Loops are cut by inductive invariants: holds for every length. "
TRUST = "Trusted: clang 18 front end and LLVM inlining, the IR-to-C printer, CBMC/MiniSAT; template instantiations named in the contract files."

PROPS = [
 dict(id="C01", title="Search and query algorithms return exactly the specified position",
  statement="For every range and every predicate or order, find_if, find_first_of, search, mismatch, equal, min_element, max_element, min, max and clamp return exactly the position or value that their definition names: the first match, the end when there is none, the first extreme element. They read nothing outside the given ranges and modify nothing.",
  quant="all ranges of any length (search and find_first_of: loop invariants over nested loops), all element values, arbitrary predicates and weak orders",
  why="tests use a handful of short literal arrays; off-by-one at the ends, empty ranges, ties and last-element matches are unsampled",
  files=[S+"algorithm.h", S+"internal/algorithm"], mech=[("iterator loops", S+"algorithm.h")],
  note=PROOF + TRUST),
 dict(id="C02", title="Copying, moving, filling and reversing touch exactly the target range",
  statement="For every range, copy, copy_n, copy_backward, move_backward, fill, fill_n, reverse and iter_swap leave every element of the destination with the specified value and return the specified end. Overlapping ranges that the algorithm allows give the same result as disjoint ones, and no byte outside the destination changes.",
  quant="all lengths, contents and permitted overlaps",
  why="tests copy a few fixed arrays; overlap direction and writes past the end are unsampled",
  files=[S+"algorithm.h"], mech=[("iterator loops", S+"algorithm.h")],
  note=PROOF + TRUST),
 dict(id="C03", title="Heaps and priority queues always yield the maximum and lose nothing",
  statement="After make_heap, push_heap, pop_heap and after any priority_queue push, emplace, pop, erase_if or copy, no held element exceeds the top under the given order, and exactly the elements pushed and not yet removed are held. Empty and single-element ranges and queues are handled; an operation on a full fixed-capacity queue never corrupts it.",
  quant="all heap states, all element values, arbitrary weak orders; arity 2, 3, 4", over=["inputs", "histories"],
  why="tests push a few literals in one order; heap order between all pairs after every operation is not observed",
  files=[S+"internal/algorithm/heap.h", S+"internal/priority_queue.h", S+"queue.h", S+"utility.h"],
  mech=[("restore_up / restore_down", S+"internal/algorithm/heap.h"), ("priority_queue", S+"internal/priority_queue.h")],
  note="priority_queue operations: " + FULL + "(capacity 3-4 from any heap state). make/push/pop_heap on raw ranges: bounded stand-ins (length bounds in evidence), not counted as proved. " + TRUST),
 dict(id="C04", title="to_chars writes the canonical text of the value or reports overflow",
  statement="For every integer value, base 2 to 36 and buffer, integer-to-text conversion succeeds exactly when the text fits, and then yields the canonical text: sign only for negative values, no leading zeros, every digit right, in the requested letter case, ending where it reports. When it does not fit it reports value_too_large. Nothing outside the buffer is ever written.",
  quant="all values of the integer types, all bases, all buffer sizes including zero",
  why="tests convert four numbers into an ample buffer; lowest values, exact-fit and short buffers and other bases are unsampled",
  files=[S+"charconv.h", S+"internal/charconv.hpp", S+"internal/charconv/reverse.hpp", S+"internal/locale/cbase.h"],
  mech=[("digit loop", S+"internal/charconv.hpp"), ("to_chars shift", S+"charconv.h")],
  note="8/16-bit types: " + FULL + "32/64-bit: " + PROOF + "Quick tier fixes bases 2,3,10,11,16,36; thorough adds every base. " + TRUST),
 dict(id="C05", title="from_chars parses exactly the longest number and never misreports",
  statement="For every text and integer type, parsing consumes exactly the longest run of digits of the base after an optional minus sign (signed types only), yields its exact value if representable, and otherwise reports result_out_of_range; with no digit it reports invalid_argument at the start. On failure the output value is unchanged, and nothing outside the text is read.",
  quant="all texts of any length, all integer types and bases",
  why="tests parse about ten literals; overflow boundaries, lone signs, empty text and trailing characters are unsampled",
  files=[S+"charconv.h", S+"internal/charconv/from_chars.hpp", S+"internal/raise_and_add.h", S+"internal/locale/cbase.h"],
  mech=[("digit loop with overflow detection", S+"internal/charconv/from_chars.hpp"), ("raise_and_add", S+"internal/raise_and_add.h")],
  note=PROOF + "Type/base pairs instantiated are listed in evidence. " + TRUST),
 dict(id="C07", title="Character classification and digit conversion agree with ASCII",
  statement="For every character value, the character classes (space, digit, alpha, alnum, upper, lower, xdigit) and case conversions agree with ASCII in the classic locale. For every base 2 to 36, the digit conversions accept exactly the characters that are digits of that base, map each to its value and back, and report every other character as not a digit.",
  quant="all 256 character values, all bases 2 to 36, all mask combinations, all digit values",
  why="tests probe a few letters; range edges such as z, high-bit characters and combined masks are unsampled",
  files=[S+"cctype.h", S+"internal/locale/ctype.h", S+"internal/locale/cbase.h"],
  mech=[("ctype<char>::is and case conversion", S+"internal/locale/ctype.h"), ("cbase digit tables", S+"internal/locale/cbase.h")],
  note=FULL + TRUST),
 dict(id="C08", title="Byte order, byte operations, flag sets and swap are exact",
  statement="For every value: byteswap reverses the bytes and is its own inverse; byte shifts and bitwise operations, and flag set operations, give the exact bitwise result, in place where the operator says so; and swap exchanges two objects, leaving an object swapped with itself unchanged.",
  quant="all values of the 8 to 64 bit types, all shift counts up to the width",
  why="tests use one or two constants per operation",
  files=[S+"bit.h", S+"cstddef.h", S+"flags.h", S+"utility.h"],
  mech=[("byteswap", S+"bit.h"), ("estd::byte", S+"cstddef.h"), ("flags", S+"flags.h"), ("swap", S+"utility.h")],
  note=FULL + TRUST),
 dict(id="C09", title="span, subspan and array are exact views of their elements",
  statement="For every span, subspan, first, last, as_bytes and array: size, bounds and element access designate exactly the elements that the definition names and no others, for fixed and dynamic extents. Views share the elements they were made from, and array copies, equality, fill, front and back act on every element and only on those.",
  quant="all offsets and counts within the viewed sequence, all element values",
  why="tests take a few literal offsets; boundary offsets, empty views and last elements are unsampled",
  files=[S+"span.h", S+"array.h", S+"internal/array.h"], mech=[("span and subspan", S+"span.h"), ("array", S+"array.h")],
  note=FULL + TRUST),
 dict(id="C10", title="String views and string searches return exactly the defined position",
  statement="For every text, needle and position, find, rfind, find_first_of, find_last_of, starts_with and ends_with give exactly the defined position or answer, including empty needles, positions past the end and matches touching either end. substr, copy, remove_prefix and remove_suffix designate exactly the defined characters, equality compares every character, compare is an order, and no character outside the text is read.",
  quant="all texts and needles of any length and any position (search functions by loop invariants); view operations for every length",
  why="tests search one or two literals; needles at the very end, empty needles, positions at and past the end are unsampled",
  files=[S+"string_view.h", S+"string.h", S+"internal/runtime_array.h", S+"internal/container/starts_with.h", S+"internal/dynamic_array.h"],
  mech=[("search loops", S+"internal/runtime_array.h"), ("starts_with", S+"internal/container/starts_with.h")],
  note=PROOF + "C-string overloads and compare are bounded stand-ins (bounds in evidence), not counted as proved. " + TRUST),
 dict(id="C11", title="Vectors keep exactly the sequence std::vector would",
  statement="For every size up to the capacity, position and element value, push_back, emplace_back, pop_back, insert (one element, an element of the vector itself, or a range), erase, assign, append, resize, clear, reserve and shrink_to_fit leave exactly the elements std::vector would, and size, empty, front, back, at, operator[] and iteration report them. Nothing outside the vector's storage is written. A request that exceeds the capacity of a fixed (layer1, layer2, layer3) vector stops the program instead of overflowing; a heap vector grows.",
  quant="all sizes 0 to capacity, all positions, counts and element values, for 1, 4 and 8 byte elements and each storage kind (capacity 4; size limits for capacities 200 and 255)",
  why="tests push and erase a few literals at one position; full vectors, both ends, own elements, and requests beyond the size type are unsampled",
  files=[S+"vector.h", S+"internal/dynamic_array.h", S+"internal/impl/dynamic_array.h", S+"internal/impl/handle_desc.h", S+"internal/container/specializer.h"],
  mech=[("dynamic_array grow, raw_insert, _erase, append", S+"internal/dynamic_array.h"), ("size tracking", S+"internal/impl/dynamic_array.h"), ("handle descriptor", S+"internal/impl/handle_desc.h")],
  note=FULL + "Capacity is a template parameter of layer1 and layer2; layer3 and heap vectors, sized at run time, are bounded stand-ins (capacity 4, growth from a full buffer). " + TRUST),
 dict(id="C12", title="Fixed-capacity strings keep exactly the text std::string would",
  statement="For every text, position and argument, assignment, append, +=, push_back, pop_back, insert, erase, clear, copy, element access, comparison for equality and iteration on layer1, layer2 and layer3 strings give exactly the result std::string would. A null-terminated string keeps its terminator right after the text and inside the buffer; nothing outside the buffer is written. A result that does not fit the capacity stops the program instead of overflowing.",
  quant="all texts up to the capacity, all positions, counts and arguments, for null-terminated and sized layer1, layer2 and layer3 strings (buffers of 4 and 5; over-long requests for buffers of 200 to 255)",
  why="tests append and erase a few literals well inside the buffer; exactly full buffers, terminators at the last byte, empty operands and over-long requests are unsampled",
  files=[S+"string.h", S+"internal/string.h", S+"internal/layer1/string.h", S+"internal/layer2/string.h", S+"internal/layer3/string.h", S+"internal/dynamic_array.h", S+"internal/impl/dynamic_array.h", S+"internal/container/specializer.h"],
  mech=[("string operations", S+"internal/string.h"), ("growth and shifting", S+"internal/dynamic_array.h"), ("terminator and size", S+"internal/impl/dynamic_array.h")],
  note=FULL + "layer3 strings, whose capacity is set at run time, are bounded stand-ins. Inserting part of a string into itself is outside the contract's precondition. " + TRUST),
 dict(id="C13", title="Deques, queues and stacks hold exactly what was pushed, in order",
  statement="From every front position and fill level, push_back, push_front, emplace_back, emplace_front, pop_back, pop_front, front, back, size, empty, iteration in both directions and move construction of a fixed deque, and push, pop, emplace, front, back and top of queues and stacks over it, act on exactly the sequence of elements pushed and not yet popped. A push to a full deque or queue and a pop from an empty one return false and change nothing. Nothing outside the container is written.",
  quant="all front positions, all fill levels and all element values for capacities 1 to 3 (4 and 5 in the thorough tier), each operation",
  why="tests push and pop a few elements without wrapping around a full ring",
  files=[S+"queue.h", S+"stack.h", S+"array.h", S+"vector.h"], mech=[("circular positions and empty flag", S+"queue.h"), ("queue and stack adapters", S+"stack.h")],
  note=FULL + "Element types with non-trivial destructors are outside the contract. " + TRUST),
 dict(id="C14", title="An optional holds exactly the value last stored, or nothing",
  statement="Every construction, assignment (nullopt, value, other optional, by copy or move), emplace, reset and destruction of an optional leaves has_value, operator bool, operator*, operator-> and value_or agreeing with what was last stored, and every stored object is constructed exactly once, used only while alive and destroyed exactly once. value() on an empty optional throws and never returns. layer1 optionals (reserved null value, and the one-byte bool form) obey the same rules, and equal optionals hash alike; an empty optional compares unequal to, and never orders against, a value.",
  quant="all states, all values, each operation", over=["inputs", "histories"],
  why="tests store a few ints; lifetimes, self assignment, empty sources and moved-from states are unsampled",
  files=[S+"optional.h", S+"internal/optional.h", S+"internal/variant/storage.h"], mech=[("optional operations", S+"optional.h"), ("value provider and flavors", S+"internal/optional.h"), ("raw storage", S+"internal/variant/storage.h")],
  note=FULL + "Object lifetimes are tracked by ghost state in the element type. Element types whose operations throw are outside the contract. " + TRUST),
 dict(id="C15", title="An expected holds exactly one of value and error, the last one stored",
  statement="Every construction, copy, move, assignment from a value or an unexpected, emplace and destruction of an expected leaves has_value, operator bool, operator*, value, error and value_or agreeing with what was last stored, with exactly one of value and error alive, constructed once and destroyed once. value() without a value throws and never returns.",
  quant="all states, all values, each operation; copyable, move-only, trivial and void value types", over=["inputs", "histories"],
  why="tests store a few values; transitions between value and error and lifetimes of both are unsampled",
  files=[S+"expected.h", S+"internal/expected.h", S+"internal/variant/storage.h"], mech=[("expected operations", S+"expected.h"), ("storage", S+"internal/variant/storage.h")],
  note=FULL + "Object lifetimes are tracked by ghost state in the value and error types. Types whose operations throw are outside the contract. " + TRUST),
 dict(id="C16", title="A variant holds exactly the alternative last stored",
  statement="Every construction (in place, by value, copy, move), assignment (from a value or another variant, by copy or move, from itself), emplace by type or index and destruction of a variant leaves index, holds_alternative, get, get_if and visiting agreeing with the alternative last stored and its value, with exactly the held objects alive, each constructed once and destroyed once. get of an alternative not held throws and never returns; get_if then yields null.",
  quant="all pairs of alternatives, all values, each operation; assignable, copy-only, move-only and trivial alternatives", over=["inputs", "histories"],
  why="tests cover few transitions; every pair of alternatives and lifetimes of non-trivial ones are unsampled",
  files=[S+"variant.h", S+"internal/variant.h", S+"internal/variant/storage.h", S+"internal/variadic/visitor.h"], mech=[("variant operations", S+"internal/variant.h"), ("storage", S+"internal/variant/storage.h"), ("access", S+"variant.h")],
  note=FULL + "Three alternatives; object lifetimes are tracked by ghost state in the alternatives. Types whose operations throw are outside the contract. " + TRUST),
 dict(id="C18", title="Durations, time points and calendar fields convert and combine exactly",
  statement="Converting a duration between any two supported periods keeps the time span, rounding toward zero; adding, subtracting and comparing durations and time points of different periods is exact in their common period, and converting to and from std::chrono agrees. hh_mm_ss splits any span below 256 hours into hours, minutes, seconds and subseconds that recombine to it, and year, month and day objects report validity, leap years and last days as the Gregorian calendar does.",
  quant="all counts whose scaled value fits the representation; all years and months", over=["inputs"],
  why="tests convert a few hand-picked spans and dates; sign, rounding and overflow of scaling and most years are unsampled",
  files=[S+"internal/chrono/duration.h", S+"internal/chrono/duration.hpp", S+"internal/chrono/time_point.h", S+"internal/chrono/ratio.h", S+"internal/chrono/operators.hpp", S+"chrono.h", S+"internal/chrono.h"], mech=[("duration conversion", S+"internal/chrono/duration.hpp"), ("time points", S+"internal/chrono/time_point.h"), ("calendar and hh_mm_ss", S+"chrono.h")],
  note=FULL + "Periods and representations are those listed with the entries. Division by a constant is decided by cvc5 solving bit-vectors as integers. The internal year_month_day over a clock (average-length years, marked as not working by its test) is outside the property. " + TRUST),
 dict(id="C19", title="Quantities with units convert, combine and compare exactly across scales",
  statement="Converting a quantity between scales of its unit (lengths, bytes, percentages of any resolution) keeps it, rounding toward zero; comparison, sum and difference of quantities in different scales are exact in the common scale, and compound assignment and increment change the count by exactly the converted operand. get_from_percent maps 0 and 100 percent onto the ends of a range and stays within it.",
  quant="all counts whose scaled value fits the representation", over=["inputs"],
  why="tests convert a few small positive values",
  files=[S+"internal/units/base.h", S+"internal/units/common_type.h", S+"internal/units/operators.hpp", S+"internal/units/percent.h", S+"internal/units/bytes.h", S+"internal/promoted_type.h"], mech=[("unit_base", S+"internal/units/base.h"), ("common scale", S+"internal/units/common_type.h"), ("mixed operators", S+"internal/units/operators.hpp")],
  note=FULL + "Scales and representations are those listed with the entries; projections with the same period but other offsets are outside the property. " + TRUST),
 dict(id="C20", title="Stream buffers over memory deliver every character in order and stay inside",
  statement="Reading a span or string stream buffer yields exactly its characters in order, each of the 256 values included, then end of file; writing appends exactly the characters given, reports how many it took and never touches memory outside the span or buffer. Seeks within the contents move there, and a buffered output stream buffer hands every character on unchanged and in order.",
  quant="all contents, lengths, positions and characters", over=["inputs", "histories"],
  why="tests move a few ASCII characters through buffers they do not fill",
  files=[S+"streambuf.h", S+"internal/streambuf.h", S+"internal/impl/streambuf/span.h", S+"internal/impl/streambuf/string.h", S+"internal/impl/streambuf/buffer.h"], mech=[("span buffers", S+"internal/impl/streambuf/span.h"), ("string buffers", S+"internal/impl/streambuf/string.h"), ("buffered output", S+"internal/impl/streambuf/buffer.h")],
  note="Span buffers are proved for spans and blocks of any length by loop invariants; string and buffered output buffers are proved for every state of the listed fixed-capacity types with all loops unrolled completely. Seeks outside the contents and istreambuf_iterator at end of file are outside the property. " + TRUST),
 dict(id="C21", title="Formatted output writes the right digits, padding and text, or fails the stream",
  statement="Inserting a number into an output stream writes its digits in the selected base, zero-free and exact, padded with the fill character to the width on the side the adjustment says, and resets the width; text, characters and manipulators append exactly their characters. A character that does not fit the destination sets badbit, and the state functions report exactly the bits set.",
  quant="all values, widths, fills, bases and stream states", over=["inputs"],
  why="tests print a few small numbers into large buffers",
  files=[S+"ostream.h", S+"internal/ostream.h", S+"internal/ostream/integer.h", S+"internal/ios_base.h", S+"internal/ios.h", S+"internal/locale/num_put.h"], mech=[("operator<<", S+"internal/ostream.h"), ("integers", S+"internal/ostream/integer.h"), ("num_put", S+"internal/locale/num_put.h"), ("state", S+"internal/ios_base.h")],
  note=FULL + "Widths go up to 15, which is what the 4-bit field stores; negative numbers are shown in decimal only; internal adjustment and the width of strings are not implemented upstream and not claimed. " + TRUST),
 dict(id="C22", title="Extraction takes the next characters or value and reports what is missing",
  statement="get, peek, unget, read, readsome, getline, ignore and operator>> take exactly the next characters, delimited line, word or number of the stream, deliver them unchanged, leave the rest to be read next, and write nothing beyond what they deliver. eofbit, failbit and badbit say exactly whether input ran out, nothing was found or a number did not fit its type.",
  quant="all contents, positions, counts and delimiters", over=["inputs", "histories"],
  why="tests extract from a handful of literals",
  files=[S+"istream.h", S+"internal/istream.h", S+"internal/locale/num_get.h", S+"internal/locale/iterated/num_get.h", S+"internal/ios_base.h"], mech=[("unformatted input", S+"internal/istream.h"), ("operator>>", S+"istream.h"), ("num_get", S+"internal/locale/num_get.h"), ("number parser", S+"internal/locale/iterated/num_get.h")],
  note=FULL + "The streams are over string buffers of the listed capacities; the number parser is additionally proved per character from every state (vh_step), so number length is not bounded there. A leading '+' is not accepted upstream and not claimed; extraction is claimed for a stream that is good before it. " + TRUST),
 dict(id="C24", title="Linked lists hold exactly the elements linked in, in order, forward and backward",
  statement="After any push, pop, insert_after, erase_after, replace_after or remove, walking a linked list visits exactly the elements put in and not taken out, in order, whatever the nodes were linked to before; front, back and the returned iterators are the right elements, remove takes every match (or the first only), no element is changed, and a list which allocates its nodes gives back exactly the ones removed.",
  quant="all lists, positions, stale links and predicates", over=["inputs", "histories"],
  why="tests link fresh nodes once and remove single elements",
  files=[S+"forward_list.h", S+"list.h", S+"internal/list_node.h", S+"internal/reverse_list.h", S+"internal/list/base.h", S+"internal/list/intrusive_forward.h", S+"internal/list/iterator.h", S+"traits/list_node.h", S+"iterators/list.h"], mech=[("forward_list", S+"forward_list.h"), ("front and back", S+"internal/list_node.h"), ("doubly linked", S+"list.h"), ("intrusive_forward", S+"internal/list/intrusive_forward.h")],
  note="Proved with every loop unrolled completely for every arrangement of up to 4 linked nodes and one unlinked node with arbitrary stale links; the operations other than remove, before_begin and walking follow at most two links, so longer lists add no further case to them. The list destructors do not free nodes upstream; not claimed. " + TRUST),
 dict(id="C25", title="Unordered maps and sets keep for every key what was last stored for it",
  statement="In every state an unordered map or set can be in, find, contains, count, iteration and bucket walks see exactly the keys put in and not erased, each once and with the value last stored; insertion of a key which is there changes nothing, an insertion without room in the key's bucket fails and changes nothing, and an erased slot is used again. No operation reads outside the slots, and every value is destroyed exactly once by erase or clear.",
  quant="all slot contents satisfying the invariant, keys, values and operations", over=["inputs", "histories"],
  why="tests insert a few keys, and lose elements only when a bucket was erased from, ran full or met another bucket",
  files=[S+"unordered_map.h", S+"unordered_set.h", S+"internal/container/unordered_map.h", S+"internal/container/unordered_set.h", S+"internal/container/unordered/base.h", S+"internal/container/unordered/traits.h"], mech=[("probing and lookup", S+"internal/container/unordered/base.h"), ("map operations", S+"internal/container/unordered_map.h"), ("set operations", S+"internal/container/unordered_set.h")],
  note="Proved from every state satisfying the slot invariant (each operation preserves it), with loops unrolled completely for 5 to 8 slots and a hash which makes the buckets overlap or the default one; other capacities are not claimed. The null key (a value-initialised key) cannot be stored, operator[] leaves a new value uninitialised and the container's destructor runs no element destructor upstream; permitted duplicates and the incremental collection are not claimed. " + TRUST),
 dict(id="C27", title="Functions, methods and references call exactly their target, with its own state",
  statement="Calling an estd function, method, thisify or contextify functor, or reference wrapper runs exactly the target it was made from, once, with the arguments given, on the object it was bound to, and returns its result. Copies and assignments of a function call equal but independent state, a functor is copied, moved and destroyed exactly once for each owner, and comparison functors agree with the operators they stand for.",
  quant="all arguments, object states and copy, move and assignment sequences of the listed length", over=["inputs", "histories"],
  why="tests call freshly made functions with constants, never one whose source is gone or changed",
  files=[S+"functional.h", S+"internal/functional.h", S+"internal/impl/functional.h", S+"internal/impl/functional/fnptr1.h", S+"internal/impl/functional/fnptr2.h", S+"internal/impl/functional/virtual.h", S+"internal/invoke.h"], mech=[("function", S+"internal/functional.h"), ("function implementations", S+"internal/impl/functional/fnptr1.h"), ("virtual implementation", S+"internal/impl/functional/virtual.h")],
  note="Proved for the three implementations (fnptr1, fnptr2, virtual) on the listed signatures and functors; indirect calls are resolved by the verifier over the address-taken functions of the harness. The experimental bind does not work upstream and is not claimed. " + TRUST),
 dict(id="C06", title="to_string gives the exact decimal text; stol, stoul and stoi pass on faithfully",
  statement="The string to_string returns for any integer is its canonical decimal text - sign, digits, no leading zero, nothing else - and reads the same through iteration, indexing and copies, as does text converted into a given string or buffer. stol, stoul and stoi convert exactly the text of the string, once, in the base asked for (10 by default), return the value converted and report the number of characters used.",
  quant="all values of each integer type; all texts, bases, conversion results", over=["inputs"],
  why="tests convert two or three small values",
  files=[S+"internal/to_string.h", S+"internal/charconv/string.h", S+"string.h"], mech=[("to_string", S+"internal/to_string.h"), ("shifted string", S+"internal/charconv/string.h"), ("stol, stoul, stoi", S+"string.h")],
  note="Proved for every value of the 8 and 16 bit types (32 bit signed: thorough) with loops unrolled completely; for the 32 and 64 bit types the quick check is bounded to the 32 values at each end of the range. The C library's strtol and strtoul are external and stand in as functions which record their arguments and return anything. " + TRUST),
 dict(id="C17", title="Tuples and pairs hold, hand out and pass on exactly their elements, in order",
  statement="A tuple or pair yields by index or type exactly the element put there, also when elements are references, empty or of one type; writing one element changes no other, copies and moves have equal elements and each element is constructed and destroyed once. apply, make_from_tuple and piecewise construction pass the elements in order, once, without copies; visitors go over elements, types or values in order until told to stop and return where; pairs compare by first, then second.",
  quant="all element values and stopping points", over=["inputs"],
  why="tests read a tuple of constants and never stop a visitor midway",
  files=[S+"tuple.h", S+"utility.h", S+"internal/tuple.h", S+"internal/tuple/apply.h", S+"internal/tuple/get.h", S+"internal/tuple/make.h", S+"internal/tuple/sparse.h", S+"internal/variadic/visitor.h"], mech=[("tuple", S+"internal/tuple.h"), ("get", S+"internal/tuple/get.h"), ("apply", S+"internal/tuple/apply.h"), ("visitors", S+"internal/variadic/visitor.h"), ("pair", S+"utility.h")],
  note="Proved for the listed tuple shapes and all values. make_tuple does not decay lvalues upstream (it refers to them) and tuples have no assignment or comparison; those are outside the property. " + TRUST),
 dict(id="C28", title="Hashes are FNV of the content; numeric limits, text lengths and ratios are exact",
  statement="The 32 and 64 bit FNV-1 and FNV-1a hashes take in every byte of a sequence of any length in order; strings and string views of every kind with equal text have the same hash, and an integer hashes to itself. numeric_limits states the exact limits and a length no text of a value exceeds; ratios multiply, divide and add exactly to the reduced result.",
  quant="all sequences of any length, start values, integers", over=["inputs"],
  why="tests hash one text and compare it with itself",
  files=[S+"internal/functional/hash.h", S+"internal/string/hash.h", S+"limits.h", S+"internal/limits.h", S+"internal/limits/integer.h", S+"internal/limits/traits.h", S+"ratio.h", S+"internal/numeric.h"], mech=[("FNV", S+"internal/functional/hash.h"), ("text hashes", S+"internal/string/hash.h"), ("limits", S+"internal/limits/integer.h"), ("ratio", S+"ratio.h")],
  note="The hash loops are proved for any length by loop invariants against a ghost hash which the iterator keeps; the text hashes are proved for every text of up to 2 characters and reach that loop with the text's iterators. Limits and ratios are constants and proved for the listed types and the listed ratios. " + TRUST),
]
NA = [
 dict(id="N01", title="RTOS mutexes, semaphores, queues and threads keep their blocking semantics",
  statement="The FreeRTOS, ESP-IDF, Arduino and PGRX ports of mutex, semaphore, condition variable, queue and thread lock, block, time out and wake as their std counterparts do, under every schedule.",
  quant="all schedules of tasks and interrupts", over=["schedules"],
  why="no test of these ports runs on the host",
  files=["src/estd/port/freertos"], mech=[("port wrappers", "src/estd/port/freertos")],
  reason="The ports only compile against RTOS kernels that are not in this sandbox, and their guarantees are about schedules: sequential function contracts over the wrappers would restate assumed contracts of the kernel."),
]
