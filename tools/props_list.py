VEC = ["src/Vector.c", "include/Zycore/Vector.h"]

prop("V01", "Vector operations never touch memory outside the container",
     "Whatever the vector's size, capacity, element size and storage (allocator-backed or a fixed caller buffer) and whatever the arguments, "
     "every vector operation reads and writes only the vector itself, its element storage, the caller-provided objects, and never storage that was released or moved. "
     "Size computations that cannot be represented are refused instead of wrapping around.",
     ["inputs", "histories", "fault_sequences"], "all reachable vector states, all argument values, every allocator failure",
     "The tests run a few sizes with element sizes 2 and 8; overruns depend on index/count/capacity combinations, overflowing products and stale storage after growth.",
     VEC, [("shift helpers", "src/Vector.c ZYCORE_VECTOR_SHIFT_LEFT/RIGHT macros / functions"), ("reallocation", "src/Vector.c ZyanVectorReallocate")], PROOF)
prop("V02", "Vector size, capacity and storage always agree",
     "After every vector operation, successful or not, the size does not exceed the capacity, the capacity is at least the minimum and equals the block the allocator handed out, "
     "and no block is lost. Storage is only replaced when the result does not fit or the configured shrink threshold asks for it, a grown capacity stays within the needed size times "
     "the growth factor, a threshold of zero disables shrinking, shrinking to fit makes the capacity match the size, and a caller-provided buffer is never replaced, resized or released.",
     ["inputs", "histories", "fault_sequences"], "all reachable vector states, configurations, arguments and allocator outcomes",
     "Invariants over all sizes, growth factors and thresholds; tests check capacity for one factor on one growth sequence and never fail an allocation.",
     VEC, [("growth and shrink policy", "src/Vector.c ZYCORE_VECTOR_SHOULD_GROW / SHOULD_SHRINK"), ("reallocation", "src/Vector.c ZyanVectorReallocate")], PROOF)
prop("V03", "A failing vector operation leaves the vector unchanged and says why",
     "A vector operation that fails (allocation refused, fixed buffer full, constructor failed, bad argument) leaves size, capacity, storage and every element as they were, "
     "returns the allocator's or constructor's own error where that was the cause, and reports an overfull fixed buffer as insufficient buffer size. "
     "Operations that only remove elements fail for a bad range alone, even if releasing memory fails.",
     ["fault_sequences", "inputs"], "every point at which the allocator or a constructor can fail, for all states and arguments",
     "No test makes an allocator or constructor fail.", VEC,
     [("status propagation", "src/Vector.c ZYAN_CHECK uses"), ("order of mutation and reallocation", "src/Vector.c insert / resize / emplace")], PROOF)
prop("V04", "Vector element constructors and destructors run exactly once, in order",
     "Removing, overwriting, truncating, clearing or destroying runs the registered destructor exactly once on each affected element, before its storage is reused or released, and on no other "
     "element; inserting, finding, swapping, reserving and copying never run it. Emplacing runs the constructor exactly once, on the new element.",
     ["inputs", "histories"], "all reachable states, indices and counts, with and without a destructor or constructor",
     "The vector tests never register a destructor; the exact call set depends on index, count and size.", VEC,
     [("destructor loops", "src/Vector.c Delete/Set/Resize/Destroy"), ("in-place construction", "src/Vector.c ZyanVectorEmplaceEx")], PROOF)
prop("V05", "Vector operations have exact sequence semantics",
     "For every vector content and position: insertion places the given elements contiguously at the position and keeps all others in order, deletion closes the gap in order, resize keeps the surviving prefix "
     "and fills new slots with the initializer, set and swap change only the named positions, getters return the addressed element, duplicates hold the same elements in separate storage, "
     "and the size changes by exactly the number of elements added or removed.",
     ["inputs", "histories"], "all sizes, element sizes, positions, counts and contents",
     "Tests check a handful of positions on vectors of fixed length; off-by-one and overlap errors depend on the exact geometry.", VEC,
     [("element shifting", "src/Vector.c shift helpers"), ("element copies", "src/Vector.c ZYAN_MEMCPY uses")], PROOF)
prop("V06", "Vector searches return the correct position for every input",
     "Linear search returns the lowest position in the searched range whose element matches, or minus one and a false result when none does. Binary search over a sorted range returns whether an equal element exists "
     "and the first position whose element is not smaller than the key, which is the insertion point otherwise; the comparison is only ever given elements of the range and the key.",
     ["inputs"], "all contents, range bounds and comparison results (for binary search: any sorted range)",
     "Tests search one small array; boundary positions, empty ranges, duplicates and sub-ranges are unbounded in number.", VEC,
     [("linear search loop", "src/Vector.c ZyanVectorFindEx"), ("binary search loop", "src/Vector.c ZyanVectorBinarySearchEx")], PROOF)
prop("V07", "Vector operations reject exactly the invalid arguments",
     "Missing required pointers and zero sizes are rejected as invalid arguments; an index or range that does not lie inside the vector, including one whose end is not representable, "
     "is rejected as out of range, and every valid one is accepted. A rejected call changes nothing.",
     ["inputs"], "all argument values including extreme indices and counts",
     "Tests try a couple of out-of-range indices and no wrapping range.", VEC, [("argument checks", "src/Vector.c, head of every exported function")], PROOF)
STR = ["src/String.c", "include/Zycore/String.h"]

prop("S01", "String operations never touch memory outside the strings involved",
     "Whatever the lengths, capacities, storage kinds, positions and counts, every string and view operation reads only characters that belong to the strings and views it was given and writes only "
     "inside the destination's own storage. This also holds for views that reference foreign, unterminated memory and for a string used as its own source.",
     ["inputs", "histories", "fault_sequences"], "all string and view states, all argument values, every allocator failure",
     "Tests use short literals, which are terminated and lie in mapped memory, so reading a character too many goes unnoticed.", STR,
     [("search loops", "src/String.c ZyanStringLPosEx/RPosEx and the case-insensitive forms"), ("editing", "src/String.c insert/append/delete")], PROOF)
prop("S02", "A string is always terminated and its sizes stay consistent",
     "After every string operation, successful or not, the string's size counts exactly one terminating null character directly behind its characters, the size fits the capacity, "
     "the capacity matches the storage and no storage is lost. Reserving or shrinking honours the terminator and never changes the text.",
     ["inputs", "histories", "fault_sequences"], "all reachable string states, arguments and allocator outcomes",
     "An invariant over every history of editing operations with every capacity; tests check a few final strings.", STR,
     [("terminator writes", "src/String.c ZYCORE_STRING_NULLTERMINATE and its uses"), ("construction", "src/String.c InitEx, DuplicateEx, ConcatEx")], PROOF)
prop("S03", "String editing produces exactly the expected text",
     "Inserting, appending, deleting, truncating, clearing, resizing, duplicating, concatenating and setting single characters yield exactly the text their documentation describes, for every content, "
     "position and count, character by character, and never change a source string or view.",
     ["inputs", "histories"], "all contents, lengths, positions, counts, source ranges, including a string appended to itself",
     "Tests append and concatenate a few literals; insertion, deletion and sub-range sources are not tested at all positions.", STR,
     [("editing", "src/String.c ZyanStringInsertEx, AppendEx, Delete, Truncate, Resize"), ("copies", "src/String.c DuplicateEx, ConcatEx")], PROOF)
prop("S04", "Failing string operations leave the string unchanged and say why",
     "A string operation fails only for an index or range outside the string (out of range), a missing argument (invalid argument), a full fixed buffer (insufficient buffer size) or the allocator's own error. "
     "A failed call leaves text, size, capacity and storage of an existing string as they were.",
     ["fault_sequences", "inputs"], "all argument values and every allocator failure, for dynamic and fixed-buffer strings",
     "No test makes an allocation fail or passes a range whose end wraps around.", STR,
     [("argument checks", "src/String.c, head of every exported function"), ("capacity checks", "src/String.c custom buffer functions")], PROOF)
prop("S05", "String views describe exactly the referenced characters",
     "A view created from a string, another view, a C string or a buffer refers to exactly the requested characters without copying them, reports their number as its size and its data pointer unmodified, "
     "and a requested range beyond the source is rejected as out of range.",
     ["inputs"], "all sources, offsets and counts",
     "Views are only created for whole literals in the tests; sub-ranges at the edges and wrapping ranges are not.", STR,
     [("views", "src/String.c ZyanStringViewInside*"), ("view getters", "src/String.c ZyanStringViewGetSize / GetData")], PROOF)
prop("S06", "String searches return the correct position for every input",
     "A search reports the leftmost (or rightmost) position at which the whole needle occurs inside the searched range, or minus one and a false result when there is none or the needle is empty. "
     "The case-insensitive forms treat the ASCII letters a-z and A-Z as equal and compare every other character exactly.",
     ["inputs"], "all haystacks, needles and ranges",
     "Partial matches, matches crossing the end of the range and characters that differ only in bit 5 need specific combinations of text and range.", STR,
     [("search loops", "src/String.c ZyanStringLPosEx, LPosIEx, RPosEx, RPosIEx")], PROOF)
prop("S07", "String comparison and case conversion are exact",
     "Comparison reports equality exactly for equal texts; otherwise its sign follows the first differing ASCII character, and a proper prefix orders before the longer string; the case-insensitive form ignores the case of ASCII letters only. "
     "Case conversion changes exactly the ASCII letters of the requested case inside the requested range and nothing else.",
     ["inputs"], "all texts and ranges",
     "Tests compare two literals; the first difference, prefixes and non-letters can be anywhere.", STR,
     [("comparison", "src/String.c ZyanStringCompare, CompareI"), ("case conversion", "src/String.c ZyanStringToLowerCaseEx, ToUpperCaseEx")], PROOF)
prop("M01", "Containers use allocators strictly by contract",
     "Vectors, strings, bitsets and lists pass an allocator only positive element sizes and counts, hand back only blocks that allocator returned, each at most once and with its true size, and never use a block after releasing it. "
     "The default allocator refuses requests whose byte size is not representable, reports failed allocations as out of memory, keeps the block and the caller's pointer when a reallocation fails, and releases what it was given.",
     ["histories", "fault_sequences", "inputs"], "all container states and operations, every allocator outcome, all request sizes",
     "Allocator misuse is invisible to tests built on malloc; overflowing requests and failed reallocations never occur in them.",
     ["src/Allocator.c", "src/Vector.c", "src/List.c", "src/String.c", "src/Bitset.c"],
     [("allocator calls", "src/Vector.c ZyanVectorReallocate, Init, Destroy; src/List.c node allocation"), ("default allocator", "src/Allocator.c")], PROOF)
BS = ["src/Bitset.c", "include/Zycore/Bitset.h", "src/Vector.c"]

prop("B01", "Bitset operations keep its bookkeeping consistent and its memory safe",
     "After every bitset operation, successful or failed, the bitset owns exactly one byte per started group of eight bits, its sizes and capacities report just that, and no operation accesses memory outside its storage. "
     "An operation fails only for a missing argument, an index outside the bitset, a full fixed buffer or an allocator error, and a failed one leaves every bit and the size unchanged.",
     ["inputs", "histories", "fault_sequences"], "all sizes (every number of bits in the last byte), storage kinds, arguments and allocator outcomes",
     "Tests use one bitset size and an allocator that never fails; size and storage drift apart only at byte boundaries or when an allocation fails.", BS,
     [("size management", "src/Bitset.c ZyanBitsetPush, Pop, Clear, Reserve, ShrinkToFit"), ("construction", "src/Bitset.c ZyanBitsetInitEx, InitBuffer")], PROOF)
prop("B02", "Bit operations affect and test exactly the addressed bit",
     "Setting, resetting, toggling, assigning, pushing and popping change exactly the addressed bit (the last one for push and pop) and keep every other bit; testing an index, the first or the last bit reports exactly the value last given to it. "
     "A new bitset has no bit set, and an index outside the bitset is rejected as out of range.",
     ["inputs", "histories"], "all sizes, indices, bit values and storage kinds",
     "Tests toggle bits of one small bitset; a wrong shift or byte for some index or a bit lost on growth does not show there.", BS,
     [("bit addressing", "src/Bitset.c ZYAN_BITSET_BIT_OFFSET and its uses"), ("size management", "src/Bitset.c ZyanBitsetPush, Pop")], PROOF)
prop("B03", "Logical operations and queries cover exactly the bits in use",
     "Flip, set-all and reset-all treat every bit; AND, OR and XOR combine every bit position both bitsets have, leaving the source unchanged; count, all, any and none report the truth about the bits in use, "
     "whatever the unused bits of the last byte hold. A user-supplied byte operation is applied to each common byte once, in order, until it fails, and its error is returned.",
     ["inputs", "histories"], "all sizes (every number of bits in the last byte), all contents, both operand orders",
     "Stale unused bits in the last byte and operands of different sizes need specific histories that the tests do not produce.", BS,
     [("byte operations", "src/Bitset.c ZyanBitsetPerformByteOperation, Flip, SetAll, ResetAll"), ("queries", "src/Bitset.c ZyanBitsetCount, All, Any, None")], PROOF)
LI = ["src/List.c", "include/Zycore/List.h"]

prop("L01", "Lists stay well linked and memory safe",
     "After every list operation, successful or failed, the elements form one chain whose forward and backward links agree, start at the head and end at the tail, and the size equals their number. "
     "Every node ever obtained is linked, waiting for reuse or given back, nodes of a fixed buffer stay inside it and apart from each other, and no operation touches memory outside the live nodes.",
     ["inputs", "histories", "fault_sequences"], "all list states, both storage kinds, any reuse order, all arguments, every allocator and constructor outcome",
     "The repository has no list tests; link invariants are about every history of insertions and removals at both ends and in the middle.", LI,
     [("node allocation", "src/List.c ZyanListAllocateNode, ZyanListDeallocateNode"), ("linking", "src/List.c Push*, Emplace*, Pop*, Remove*, Resize*")], PROOF)
prop("L02", "List operations yield exactly the expected sequence of elements",
     "Pushing and emplacing add one element at the requested end, popping, removing and shrinking take away exactly the requested elements, growing appends copies of the given value, and all other elements keep value and order. "
     "The destructor, if any, runs exactly once for every element that is removed, replaced or destroyed, while it still holds its value; iteration visits the elements in order.",
     ["inputs", "histories"], "all list states, element sizes, positions and counts",
     "No list test exists; a lost element or a second destructor call needs particular sequences.", LI,
     [("editing", "src/List.c Push*, Emplace*, Pop*, Remove*, Resize*, Clear, SetNodeData"), ("access", "src/List.c GetHeadNode, GetNextNode, GetNodeData*")], PROOF)
prop("L03", "Failing list operations report why and lose nothing",
     "An insertion fails only with the allocator's error, the constructor's error or a full fixed buffer, and leaves the list as it was; removing from an empty list and missing arguments are rejected. "
     "If giving a node back fails, the removal is still completed and the failure is reported.",
     ["fault_sequences", "inputs"], "every allocator and constructor outcome, all arguments",
     "No test makes an allocation, a constructor or a release fail.", LI,
     [("failure paths", "src/List.c ZYAN_CHECK in Push*, Emplace*, Resize*"), ("argument checks", "src/List.c, head of every exported function")], PROOF)
FO = ["src/Format.c", "include/Zycore/Format.h", "src/String.c"]

prop("F01", "Appended numbers denote exactly the given value",
     "Appending a number leaves the existing text in place and adds, in this order, the sign (minus for negative values, plus only if requested), the prefix, zeros up to the padding length and the digits "
     "of the value in the requested base and letter case, without leading zeros of its own. The result is terminated and counted correctly, and the 32-bit code paths give the same text.",
     ["inputs", "histories"], "all 64-bit values, padding lengths, prefixes, flags, string lengths, capacities and storage kinds",
     "The tests have no numeric formatting; a wrong digit, pad or carry shows only for particular magnitudes, paddings and remaining capacities.", FO,
     [("decimal digits", "src/Format.c ZyanStringAppendDecU32, ZyanStringAppendDecU64, DECIMAL_LOOKUP"), ("hexadecimal digits", "src/Format.c ZyanStringAppendHexU32, ZyanStringAppendHexU64"),
      ("sign and prefix", "src/Format.c ZyanStringAppendDecS, ZyanStringAppendHexS")], PROOF)
prop("F02", "printf-style appending adds the whole formatted text",
     "Appending a format adds exactly the text the format and its arguments denote behind the existing text, however long it is and whatever capacity was left; the arguments are those of the caller in every attempt, "
     "and an argument list is never used after it was consumed. An encoding error is reported and leaves the text as it was.",
     ["inputs", "histories"], "all string lengths, capacities, storage kinds and lengths of the formatted text",
     "The second formatting pass only happens when the remaining capacity is too small; tests do not append formats at all.", FO,
     [("two-pass formatting", "src/Format.c ZyanStringAppendFormat")], PROOF)
prop("F03", "A failed formatting call leaves the text unchanged",
     "A number or format whose text does not fit because a fixed buffer is full or memory cannot be allocated is refused with that reason, a missing string or format is an invalid argument, and in each case "
     "the string holds the same terminated text as before, without a leftover sign, prefix or digit. Formatting never accesses memory outside the strings involved.",
     ["fault_sequences", "inputs"], "every allocator outcome and every remaining capacity, for all values, paddings and prefixes",
     "A multi-part number can fail after any of its parts; tests never exhaust a buffer or fail an allocation while formatting.", FO,
     [("failure paths", "src/Format.c ZyanStringAppendDecS, HexS, DecU, HexU, AppendFormat")], PROOF)
HD = ["include/Zycore/Comparison.h", "include/Zycore/Defines.h", "include/Zycore/Status.h", "include/Zycore/Types.h", "include/Zycore/Zycore.h", "src/Zycore.c"]

prop("C01", "The predefined comparison functions order every pair of elements",
     "The equality functions of Comparison.h, and those the declaration macros generate for a signed or unsigned type or for one field of a structure, report equality exactly for equal elements. "
     "The comparison functions return a negative, zero or positive value exactly as the left element is less than, equal to or greater than the right one. Each reads only the two elements and changes nothing.",
     ["inputs"], "all pairs of values of every element width and signedness",
     "Sorted insertion and binary search are only right if the order is right for every pair; the tests compare a few small numbers of two widths.", HD,
     [("comparison functions", "include/Zycore/Comparison.h ZyanEquals*, ZyanCompare*, ZYAN_DECLARE_*")], PROOF)
prop("C02", "The arithmetic macros are exact",
     "Minimum, maximum, absolute value, alignment test, alignment up and down, power-of-two test, number of bits to represent a value, 64-bit division and array length give exactly the mathematical result for every "
     "value for which that result is representable, treating each operand as a whole, and a constant for constant operands. A value that is aligned already is left as it is by both roundings.",
     ["inputs"], "all operand values of 8 to 64 bits, every power of two as alignment",
     "No test uses these macros; they go wrong at boundaries, for aligned values or for compound operands.", HD,
     [("macros", "include/Zycore/Defines.h ZYAN_MIN, MAX, ABS, ALIGN_UP, ALIGN_DOWN, IS_ALIGNED_TO, IS_POWER_OF_2, BITS_TO_REPRESENT, DIV64")], PROOF)
prop("C03", "Status codes, version and basic types mean what they say",
     "A status packs error bit, module and code so that each can be recovered; exactly the success codes count as success, all predefined codes are constants, differ and belong to their module, and ZYAN_CHECK evaluates its expression once, "
     "returning a failure unchanged. The library reports the version of its headers, whose parts can be extracted, and fixed-width types and limits have the width and sign they name, with and without the C library.",
     ["inputs", "configurations"], "all field values, all predefined codes, all versions, both library configurations",
     "The tests only compare results with a few named codes; a clash, a wrong error bit or a wrong field shift is invisible to them.", HD,
     [("status", "include/Zycore/Status.h"), ("version", "include/Zycore/Zycore.h, src/Zycore.c"), ("types", "include/Zycore/Types.h")], PROOF)
prop("K01", "Atomic operations are atomic, fully ordered and return the right value",
     "Compare-exchange stores the new value exactly if the object equals the comparand, and returns the original value; increment and decrement change the object by one, modulo its width, and return the new value, as do the macro forms, which can be used wherever a call can. "
     "Each change is made by exactly one atomic instruction on the given object that is a full memory barrier, whatever other threads do to the object meanwhile.",
     ["inputs", "schedules"], "all values, all interleavings with other accesses (every plain read may return anything), functions and macro forms of all widths",
     "No test uses atomics or threads; a plain access between two atomic ones is a race that shows on rare schedules only.", ["include/Zycore/Atomic.h", "include/Zycore/Internal/AtomicGNU.h"],
     [("atomics", "include/Zycore/Internal/AtomicGNU.h ZyanAtomic*"), ("macro forms", "include/Zycore/Atomic.h")], PROOF)
OSF = ["src/API/Synchronization.c", "src/API/Thread.c", "src/API/Memory.c", "src/API/Process.c", "src/API/Terminal.c"]
prop("T01", "Critical sections are recursive mutexes whose failures are reported",
     "Initialising creates a recursive mutex in the given critical section and leaves no attribute object behind; entering, leaving and deleting perform exactly one lock, unlock or destroy of that section, and trying to enter is "
     "true exactly if the lock was taken. Success is reported exactly if the system call succeeded, and otherwise the documented status of its error.",
     ["fault_sequences", "inputs"], "every outcome of every pthread call",
     "No test uses critical sections, and none can make pthread calls fail; a missing recursive type shows only as a deadlock.", OSF[:1],
     [("critical sections", "src/API/Synchronization.c")], PROOF)
prop("T02", "Thread identity and thread-local storage pass through faithfully",
     "Thread handle and id are those of the calling thread. Allocating a slot registers the given destructor and returns the index of the new slot (leaving the output alone on failure); reading, writing and freeing act exactly once on exactly "
     "the given slot and value, and every failure is reported with the status of its cause.",
     ["fault_sequences", "inputs"], "every outcome of every pthread call, all indices and values",
     "No test uses threads or slots or makes pthread calls fail.", OSF[1:2],
     [("TLS", "src/API/Thread.c ZyanThreadTls*"), ("threads", "src/API/Thread.c ZyanThreadGetCurrentThread*")], PROOF)
prop("T03", "Memory, process and terminal functions request exactly what was asked",
     "Changing protection requests exactly the access rights the protection names, for exactly the given range; freeing, flushing the instruction cache and querying the page size make the one matching system call, and flushing has taken effect on return. "
     "Terminal queries address the descriptor of the named stream and reject unknown streams; success is reported exactly if the call succeeded.",
     ["fault_sequences", "inputs"], "every outcome of every system call, all ranges, protections and streams",
     "No test calls these functions; a wrong protection bit or a swallowed error has no visible effect until it matters.", OSF[2:],
     [("memory", "src/API/Memory.c"), ("process", "src/API/Process.c"), ("terminal", "src/API/Terminal.c")], PROOF)

LB = ["include/Zycore/LibC.h"]
prop("P01", "The C library fallbacks behave like the C library",
     "Without a C library, each string and memory function of LibC.h has the result and effect the C standard gives its namesake, for every content, length and overlap the standard allows, including empty strings and the "
     "bytes 128 to 255. It reads no byte behind a terminating null character or the given count, and writes no byte the standard does not name.",
     ["inputs", "configurations"], "all string and buffer contents and lengths, all search characters and counts, overlapping moves in both directions",
     "The tests are built with the C library, so no fallback ever runs; the bugs of such functions show only for a repeated prefix, an empty string, a count that ends early or an overlap.", LB,
     [("fallbacks", "include/Zycore/LibC.h ZYAN_MEM*, ZYAN_STR* (ZYAN_NO_LIBC)")], PROOF)

AP = ["src/ArgParse.c", "include/Zycore/ArgParse.h"]
prop("A01", "Argument parsing follows the documented grammar for every command line",
     "For every list of tokens and definitions, parsing yields exactly the arguments the tokens denote, in order, each with the first definition it names and its value: long options and clustered single-dash "
     "flags, values attached or in the next token, unnamed arguments, and the end marker after which nothing is an option. A token is refused exactly if it is unknown, lacks its value or exceeds the "
     "unnamed limit, naming that token; too few unnamed arguments, a missing required argument or an invalid configuration are refused with their own status.",
     ["inputs"], "all token lists, definition lists and limits, of any length and content",
     "The tests parse a dozen command lines; the meaning of a token depends on what precedes it, on cluster position, on the end of the list and on every other definition.", AP,
     [("token loop", "src/ArgParse.c ZyanArgParseEx"), ("required arguments", "src/ArgParse.c ZyanArgParseEx")], PROOF)
prop("A02", "A failed parse leaves nothing behind and a parse never leaves its inputs",
     "When parsing fails for whatever reason, including every failed allocation, the error is reported and the output vector has been destroyed exactly once, or was never created; on success the caller "
     "owns a live vector. Parsing only reads the given strings, up to their terminators, the listed tokens and definitions, and never uses an element after it may have moved.",
     ["inputs", "fault_sequences"], "all token and definition lists, every allocation failure",
     "No test makes an allocation fail or checks what an unsuccessful parse leaves allocated.", AP,
     [("failure path", "src/ArgParse.c ZyanArgParseEx failure label")], PROOF)

ALL = ["src", "include/Zycore"]
prop("E01", "Every operation ends",
     "Every function of the library returns, for every state of its objects, every content and every argument: no loop can repeat forever and no function ends up calling itself. "
     "This includes searches in sorted ranges, growth of storage, conversion of numbers, parsing of arguments and walking lists, whatever the allocator or a callback answers; only waiting for a lock, and callbacks that do not return themselves, are excepted.",
     ["inputs", "histories", "fault_sequences"], "all reachable states, contents and arguments; every loop of the library and of the C library fallbacks",
     "A hanging input is one in an unbounded number of states; a test can only show that the inputs it tried came back.", ALL,
     [("loops", "src/*.c, include/Zycore/LibC.h: every loop"), ("call graph", "src/*.c: every call")],
     ("proof", PROOF[1] + "; every loop gets a (lexicographic) ranking function over the state between two iterations", "static analysis: ranking functions over the abstract interpreter's loop summaries; acyclic call graph"))
prop("G01", "The library keeps no hidden state",
     "No function of the library changes any object of static storage duration, directly or through a function it calls, or uses a C library function that keeps state of the process or returns a buffer shared between calls. "
     "So calls that work on different objects never influence each other, whatever their order, their thread or the instance that made them; the library never changes its tables or the default allocator.",
     ["schedules", "histories"], "all functions of the library and the headers, all interleavings and call histories, with and without the C library",
     "The tests are single-threaded and use one object at a time; a shared buffer or a lazily filled table gives wrong results only when calls overlap.", ALL,
     [("static objects", "src/*.c: static data"), ("external calls", "src/*.c: libc calls")],
     ("proof", "every store and every external call of every function is classified by an interprocedural effect analysis of the IR (addresses are followed through calls, phis, selects and returns, not through memory); strtok and its fallback are stateful by definition",
      "static analysis: interprocedural write-effect analysis of the LLVM IR and a classification of all external calls"))
prop("N01", "The build without a C library is self-contained",
     "Compiled with ZYAN_NO_LIBC, every source file needs no header but those of the library and the compiler itself, and the resulting library refers to no external function or object, except for the four memory functions a "
     "compiler may assume in any freestanding environment.",
     ["configurations"], "all source files and functions, in the configuration without a C library",
     "The tests are built with the C library, so a libc call that is not covered by the configuration switch compiles and works.", ALL,
     [("configuration switch", "include/Zycore/LibC.h, src/*.c ZYAN_NO_LIBC")],
     ("proof", "every symbol reference of every function in the configuration is enumerated", "static analysis: compilation without system headers, and enumeration of all symbol references in the LLVM IR"))
prop("X01", "The public interface is complete and the same for C and C++",
     "Every public header can be included alone, repeatedly, in C and in C++, with and without a C library, and its container macros can be used in both languages. Every function it declares is part of the library and found under its C name "
     "from C++, functions defined in headers stay local to the including file, and sizes, offsets and constants are the same in every such program as in the library.",
     ["configurations"], "all public headers, functions, container macros, structures and constants, four language versions, both library configurations",
     "The tests use the headers in a few combinations and call a part of the functions; a declaration without a definition or with another linkage shows only when somebody calls it.", ["include/Zycore"],
     [("headers", "include/Zycore/*.h, include/Zycore/API/*.h"), ("linkage", 'include/Zycore/*.h extern "C"')],
     ("other", "enumeration over the syntax tree and IR of the current tree, exhaustive for the listed headers, languages and configurations; known findings: eight functions that are declared but defined nowhere",
      "static analysis: queries over the type-checked syntax tree and symbol tables, compile-fail witnesses"))
prop("H01", "The container macros do what they say",
     "The initialisers give an empty object whose pointers are all null, a string view defined from a literal covers exactly its characters and terminator and owns nothing, and converting a string to a view yields the same object. Element access macros "
     "give the element at the index or of the node for any argument expressions, and like the conversion can be used like a function call. The loops run their body exactly once per element, in order, on the element itself where it can be changed, also nested and for an empty vector, and leave the vector alone.",
     ["inputs", "configurations"], "all vector states and indices, in C and in C++",
     "The tests use two of the macros on one vector each, and never in C.", ["include/Zycore/Vector.h", "include/Zycore/String.h", "include/Zycore/List.h"],
     [("initialisers", "ZYAN_VECTOR_INITIALIZER, ZYAN_STRING_INITIALIZER, ZYAN_LIST_INITIALIZER, ZYAN_DEFINE_STRING_VIEW"), ("loops", "ZYAN_VECTOR_FOREACH, ZYAN_VECTOR_FOREACH_MUTABLE")], PROOF)
