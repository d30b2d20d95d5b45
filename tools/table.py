CB = 'bounded model checking of the C sources (CBMC, SAT), native counterexample replay'
ST = 'symbolic execution of the Smalltalk sources with z3, counterexample replay on the built gst'
PROPS = [
 dict(id='P01', title='SmallInteger arithmetic is exact',
  statement='Every arithmetic, comparison, shift and bit operation on small integers answers the exact mathematical result, whether executed through the fast path or the ordinary send; a result outside the small-integer range is answered as the exact large integer or handed to the general algorithm with the operands untouched, never wrapped. Division by zero never yields an answer.',
  over=['inputs'], quant='every pair of small integers (62-bit signed), every operation',
  why='tests evaluate a few dozen pairs; the overflow boundary is a 2^124 space of pairs',
  files=['libgst/prims.def', 'libgst/vm.def', 'libgst/interp.inl', 'libgst/dict.inl'], mech='SmallInteger primitives and special-selector bytecodes',
  tech=CB, note='All operand pairs for + - comparisons bit ops and shifts; multiplication and division for every value of one operand against listed constants plus all small pairs. Trusts CBMC and the x86 model of add/sub/seto.'),
 dict(id='P02', title='Integer functions compute the exact number-theoretic result',
  statement='Bit access, shifts, masks, gcd and lcm, factorial and binomials, roots and logarithms, rounding, the four division families and their sign conventions on integers answer the mathematically exact value for every integer, small or large, positive or negative.',
  over=['inputs'], quant='every integer argument within the stated windows (up to |x| <= 2^70), the listed second operands',
  why='tests use a handful of values; errors sit at sign changes, powers of the base and representation boundaries',
  files=['libgst/mpz.c', 'kernel/Integer.st', 'kernel/Number.st', 'kernel/SmallInt.st', 'kernel/LargeInt.st'], mech='Integer, Number and LargeInteger methods',
  tech=ST + '; ' + CB, note='Bounds per obligation in evidence. Arithmetic primitives are modelled as exact (P01 decides the small-integer ones on the C code).'),
 dict(id='P03', title='Integers print in any base and parse back to themselves',
  statement='An integer prints in any radix 2 to 36 as its canonical numeral (no leading zeros, - in front for negatives, NNr prefix for radix forms, padding exactly to the requested width), and reading a numeral answers exactly the number it denotes and leaves the stream right after it.',
  over=['inputs'], quant='every integer within the windows and every short string over the numeral alphabet',
  why='tests print a few numbers; digit-count boundaries, sign and radix interactions are per-value',
  files=['libgst/mpz.c', 'kernel/Integer.st', 'kernel/Number.st', 'kernel/LargeInt.st', 'kernel/Character.st'], mech='printString:, printOn:base:, printPaddedWith:to:, readFrom:, asInteger',
  tech=ST + '; ' + CB, note='|x| up to 2^30 symbolic, windows around 2^31..10^25; strings up to length 5.'),
 dict(id='P04', title='Fraction arithmetic is exact and normalised',
  statement='Arithmetic, comparison, rounding and conversion of fractions, and of fractions mixed with integers, answer the exact rational result in lowest terms with a positive denominator (an integer when the denominator is 1); equal numbers have equal hashes; no operation on a zero denominator yields an answer.',
  over=['inputs'], quant='every numerator and denominator within the windows',
  why='tests use a few fractions; sign, gcd and coercion interactions are per value',
  files=['libgst/mpz.c', 'kernel/Fraction.st', 'kernel/Number.st', 'kernel/Integer.st'], mech='Fraction methods',
  tech=ST + '; ' + CB, note='Symbolic numerators/denominators in the windows listed in evidence; gcd: replaced by its specification, which P02 decides.'),
 dict(id='P05', title='Intervals are the arithmetic progressions they denote',
  statement='(a to: b by: s) contains exactly the numbers a, a+s, ... not beyond b, in that order: size, indexing, enumeration, collecting, reversal, copying, equality, hashing and printing all agree with that sequence, for positive and negative steps and empty ranges, integer or fractional.',
  over=['inputs'], quant='every bound and non-zero step within the windows',
  why='off-by-one errors appear only for particular bound/step remainders',
  files=['kernel/Interval.st', 'kernel/Number.st', 'kernel/ArrayColl.st'], mech='Interval, Number>>to:do:, to:collect:',
  tech=ST, note='Bounds in evidence.'),
 dict(id='P06', title='OrderedCollection behaves as a sequence under every history',
  statement='After any sequence of additions, removals and accesses at either end or at any position, an OrderedCollection holds exactly the elements of the corresponding list, in order; every answer matches; an access outside the bounds signals an error and changes nothing; growing, shrinking and capacity are unobservable.',
  over=['histories', 'inputs'], quant='every history of the listed operations up to the stated length, every element and index value',
  why='grow/shrink/shift interactions need particular operation sequences and capacities',
  files=['kernel/OrderColl.st', 'kernel/SeqCollect.st'], mech='OrderedCollection',
  tech=ST, note='Histories of 2 to 7 operations from several initial shapes; see evidence.'),
 dict(id='P07', title='Sets and bags keep membership and counts under every history',
  statement='After any sequence of operations a Set holds each equal element once (IdentitySet: each identical one), a Bag counts each element exactly; membership, removal, enumeration, size, copying, equality and hashing agree with that, whatever the hashes of the elements, including colliding ones.',
  over=['histories', 'inputs'], quant='every history up to the stated length, every assignment of hashes from the stated ranges',
  why='open addressing errors need particular collisions followed by particular removals',
  files=['kernel/HashedColl.st', 'kernel/Set.st', 'kernel/IdentitySet.st', 'kernel/Bag.st', 'kernel/Collection.st'], mech='HashedCollection, Set, IdentitySet, Bag',
  tech=ST, note='Elements with chosen (colliding) hashes; histories of 2 to 5 operations; see evidence.'),
 dict(id='P08', title='Dictionaries map keys to the last value stored, in every history',
  statement='After any sequence of at:put:, removeKey: and lookups, a dictionary answers for each key the value last stored and for absent keys signals or runs the given block; keys, values, associations, size, enumeration, copying and equality agree with that map, whatever the key hashes, for Dictionary, LookupTable and IdentityDictionary.',
  over=['histories', 'inputs'], quant='every history up to the stated length, every assignment of hashes from the stated ranges',
  why='open addressing errors need particular collisions followed by particular removals',
  files=['kernel/HashedColl.st', 'kernel/Dictionary.st', 'kernel/LookupTable.st', 'kernel/IdentDict.st', 'kernel/DeferBinding.st', 'kernel/LookupKey.st'], mech='Dictionary family written in Smalltalk',
  tech=ST, note='Elements with chosen (colliding) hashes; histories of 2 to 4 operations; see evidence. The C implementation of Dictionary/IdentityDictionary at:put: is modelled here by its specification.'),
 dict(id='P09', title='Sorted collections stay sorted and sorting sorts',
  statement='A SortedCollection presents exactly the elements added and not removed, in the order of its sort block, after any sequence of additions, removals and accesses; searches answer as in that sequence; sort, sort: and asSortedCollection answer an ordered permutation of their receiver.',
  over=['histories', 'inputs'], quant='every history up to the stated length and every array up to the stated size',
  why='the lazy heap/merge states are reached only by particular interleavings of add, first, last and remove',
  files=['kernel/SortCollect.st', 'kernel/OrderColl.st', 'kernel/ArrayColl.st', 'kernel/SeqCollect.st'], mech='SortedCollection, sort',
  tech=ST, note='Histories of 2 to 7 operations; arrays up to 6 elements, elements over +-10^9.'),
 dict(id='P10', title='Sequences copy, replace, search and enumerate exactly their elements',
  statement='For arrays, ordered collections, intervals, byte arrays and strings alike, copying, concatenating, replacing, searching, reversing, swapping, and every enumeration message visit or answer exactly the elements that the corresponding finite sequence prescribes, in order; positions outside the sequence raise an error and change nothing.',
  over=['inputs'], quant='every element value, every position argument, every sequence length up to the bound',
  why='a message has many combinations of positions, lengths and overlapping ranges; tests pick one or two of each',
  files=['kernel/SeqCollect.st', 'kernel/ArrayColl.st', 'kernel/OrderColl.st', 'kernel/Collection.st', 'kernel/Iterable.st', 'kernel/Array.st', 'kernel/ByteArray.st'], mech='SequenceableCollection and ArrayedCollection methods',
  tech=ST, note='Sequences of up to 5 (thorough 6) elements of 4 kinds of collection; see evidence.'),
 dict(id='P11', title='Strings, symbols and characters behave as sequences of code points',
  statement='Character classification, case and order, string comparison (exact and ignoring case), trimming, splitting, joining, line separation, pattern matching, template expansion, shell quoting, symbols interning and printing answer what the code points prescribe, for every string.',
  over=['inputs'], quant='every character; every string up to the length bound over the stated alphabets',
  why='separator runs at the ends, empty pieces, and characters outside ASCII letters are per-string cases',
  files=['kernel/CharArray.st', 'kernel/String.st', 'kernel/Symbol.st', 'kernel/Character.st', 'kernel/UniChar.st', 'kernel/ArrayColl.st'], mech='CharacterArray, String, Symbol, Character methods',
  tech=ST, note='Strings up to length 4 (thorough 6). Symbol interning itself (C) is modelled by its specification.'),
 dict(id='P12', title='Indexed access touches exactly the addressed element or fails',
  statement='For an object of any shape, reading or writing at an index from 1 to its size addresses exactly that element; any other index, a value the element cannot hold, or a read-only receiver is rejected and nothing changes; what is read back is what was stored, and integers cross the C boundary unchanged. This holds equally through the primitives and through the cached at: and at:put: bytecodes.',
  over=['inputs'], quant='every shape, every index (62-bit), every object content and every value up to 64 bits, objects of 0 to 5 elements',
  why='the index space has 2^62 points; wraparound and sign errors appear at isolated ones',
  files=['libgst/dict.inl', 'libgst/prims.def', 'libgst/interp.c', 'libgst/oop.h'], mech='index_oop_spec, index_oop_put_spec, at:/at:put: caches, C integer conversions',
  tech=CB, note='Objects of 0 to 5 elements with 0 or 1 (thorough 0 to 2) fixed fields.'),
 dict(id='P13', title='Streams behave like a cursor on a sequence',
  statement='A stream is a sequence with a position between 0 and its size. Reading answers the elements after the position and advances by exactly as many; peeking advances nothing; positioning outside the sequence is rejected or clamped as documented; searching and splitting (upTo:, upToAll:, skipTo:, skipToAll:, nextLine, lines, subsequence streams) find the first occurrence and stop just after it; writing replaces or appends at the position, contents answer exactly what was written, a failing store changes nothing; and filtered, collected, concatenated and zipped streams deliver the elements their definition says, the same whether peeked or read.',
  over=['inputs', 'histories'], quant='every history of 2 to 4 of the reading, positioning and writing operations with every argument in range, every content up to 6 elements and pattern up to 3, within the bounds printed per obligation',
  why='errors sit at the end of the buffer, after backward moves, in repeated prefixes of a pattern, or when two operations meet: combinations the tests do not enumerate',
  files=['kernel/Stream.st', 'kernel/PosStream.st', 'kernel/ReadStream.st', 'kernel/WriteStream.st', 'kernel/RWStream.st', 'kernel/StreamOps.st'], mech='next, peekFor:, skip:, upTo:, upToAll: (KMP), nextPut:, truncate, FilteringStream, CollectingStream, ConcatenatedStream, OneOfEachStream',
  tech=ST, note='Files and pipes are not executed; collections of up to 8 elements.'),
 dict(id='P14', title='Dates, times, durations and timestamps follow the calendar exactly',
  statement='Every day number corresponds to exactly one proleptic Gregorian year, month and day and back, with month lengths, leap years, weekdays and days of the year as in the calendar; day and month numbers out of range roll over or are rejected; a time of day has hours, minutes and seconds that recombine; adding and subtracting durations is exact and inverse; timestamps compare, hash and subtract by the instant they denote, whatever their offset; and what dates, times, durations and timestamps print reads back as the same value.',
  over=['inputs'], quant='every day of years 1601 to 2000 (thorough: every residue modulo 400 for the years -2000 to 10000), every second of a day, durations within 10^9 s, every pair of timestamps between 1818 and 2065 with 7 times 3 offsets',
  why='calendar errors hide at century and leap-year ends, negative remainders and offset changes of day: a handful of days out of millions',
  files=['kernel/Date.st', 'kernel/Time.st', 'kernel/AnsiDates.st'], mech='Date>>setDays:, yearAsDays:, Time, DateTime, Duration',
  tech=ST, note='Reading dates whose year is below 32 is ambiguous and not claimed; the operating system clock and time zones are not executed.'),
 dict(id='P15', title='Scaled decimals and mixed exact arithmetic are exact',
  statement='A ScaledDecimal holds an exact rational and a scale; sums, differences, products and quotients of scaled decimals with each other and with integers and fractions are exact and carry the larger scale; comparison between integers, fractions and scaled decimals is by exact value; printing shows exactly scale digits of the value truncated toward zero; conversions, truncation, rounding and integer powers of integers, fractions and scaled decimals are exact.',
  over=['inputs'], quant='every numerator, denominator, scale and operand within the bounds stated per obligation',
  why='rounding, sign and scale rules interact; the tests print a few sums',
  files=['libgst/mpz.c', 'kernel/ScaledDec.st', 'kernel/Number.st', 'kernel/Fraction.st', 'kernel/Integer.st', 'kernel/LargeInt.st'], mech='ScaledDecimal, Number coercion (generality, retry:coercing:)',
  tech=ST + '; ' + CB, note='Equality of two scaled decimals with different scales is documented as rounded and is not claimed; hashes are claimed for exactly equal numbers.'),
 dict(id='P16', title='Points and rectangles follow plane geometry',
  statement='Point arithmetic, comparison and transformation act on each coordinate exactly; a rectangle contains exactly the points between its origin (included) and corner (excluded), and intersection, merging, insetting, expanding, moving, area, corners and translation within another rectangle answer the rectangle that follows from that set.',
  over=['inputs'], quant='every integer coordinate within the bounds stated per obligation',
  why='empty, touching and nested rectangles differ from the overlapping ones that are usually tried',
  files=['kernel/Point.st', 'kernel/Rectangle.st'], mech='Point and Rectangle methods',
  tech=ST, note='Integer coordinates. areasOutside: is not executed (its Set of rectangles needs hashing of symbolic points).'),
 dict(id='P17', title='Large integer arithmetic is exact at every size',
  statement='Sums, differences, products, quotients, remainders (truncated, floored and exact), negation and all six comparisons between integers of which at least one is large answer the exact mathematical result, in the one canonical representation of that value: a small integer whenever it fits, otherwise a large integer of the right sign and shortest digits; operands are not changed.',
  over=['inputs'], quant='every pair of operands of up to 128 bits for sums, differences and comparisons; every operand of up to 128 bits against the listed constants for products and divisions',
  why='carries, borrows, sign combinations and digit counts go wrong only for particular limb patterns out of 2^256',
  files=['libgst/mpz.c', 'libgst/mpz.h', 'libgst/prims.def', 'libgst/dict.inl'], mech='_gst_mpz_add, _gst_mpz_sub, _gst_mpz_mul, _gst_mpz_tdiv_qr, _gst_mpz_fdiv_qr, _gst_mpz_divexact, _gst_mpz_cmp, _gst_mpz_from_oop, _gst_oop_from_mpz',
  tech=CB, note='GMP itself is represented by its specification. Operands of up to 3 words; see evidence for the constants.'),
 dict(id='P18', title='Symbols are unique and the system dictionaries are exact maps',
  statement='Two symbols are the same object exactly when they are spelled with the same characters, whatever bytes those are; interning a string keeps its characters and leaves the string alone, and a selector takes as many arguments as it has colons (one when binary). The tables that the virtual machine keeps its methods, class variables and globals in behave as mathematical maps: storing a key makes that key, and no other, answer the new value, whatever keys collide with it and whether or not the table grows; keys not stored are absent; the size is the number of keys; and a name means what the innermost namespace that defines it says.',
  over=['inputs', 'histories'], quant='every pair of spellings up to 17 characters; every reachable state of a table of up to 8 slots, every key and value',
  why='which keys collide depends on object addresses and hash values that a test does not control',
  files=['libgst/sym.c', 'libgst/dict.c', 'libgst/dict.inl'], mech='intern_counted_string, is_same_string, _gst_intern_string_oop, _gst_selector_num_args, _gst_identity_dictionary_at_put, identity_dictionary_find_key, grow_identity_dictionary, _gst_dictionary_add, grow_dictionary, dictionary_association_at, _gst_namespace_association_at',
  tech=CB, note='A table is put in every state in which each key can be reached from its home slot; one operation is then compared with a map. Allocation and the swap of two objects are by specification.'),
 dict(id='P19', title='Primitives copy, compare, search and allocate sequences exactly',
  statement='replaceFrom:to:with:startingAt: puts exactly the source elements in the given positions, also when source and receiver are the same object and overlap, and changes nothing when a position, the source or the receiver (read-only) does not allow it. Two sequences of one class are equal exactly when their size and all elements are, and strings with the same characters have the same hash. indexOf: answers the first position at or after the start that holds the object. shallowCopy answers a new, writable object of the same class, size and contents; new: answers an object of exactly that size, with every element nil or zero; Character value: answers the one Character with that value.',
  over=['inputs'], quant='every sequence of up to 4 (some 10) elements of each representation, every position in the SmallInteger range, every argument',
  why='the positions and the contents that go wrong are corner cases of sizes, overlaps, padding and integer widths',
  files=['libgst/prims.def', 'libgst/dict.c', 'libgst/dict.inl', 'libgst/sym.c'], mech='VMpr_ArrayedCollection_replaceFromToWithStartingAt, VMpr_ArrayedCollection_equal, VMpr_String_hash, VMpr_ArrayedCollection_indexOfStartingAt, VMpr_Object_shallowCopy, _gst_object_copy, VMpr_Behavior_basicNewColon, instantiate_with, VMpr_Character_create',
  tech=CB, note='The allocator is represented by its specification; the memory it hands out holds arbitrary words.'),
 dict(id='P20', title='Semaphores and the scheduler lose no process and no signal',
  statement='A signal resumes the process that has waited longest, or is counted when none waits, and exactly one later wait takes it; notify, notifyAll, lock and waitAfterSignalling: do as documented, and it is always the process that executes a wait that waits. A process is in at most one list, is lost from none, and processes of one priority run in the order in which they became ready; a process that is resumed at the same or a higher priority than the running one runs at once. When the running process waits, is suspended, terminated or yields, the first of the ready processes with the highest priority runs next. Requests queued by interrupt handlers and threads are each carried out exactly once, in order of arrival, whatever interrupts what.',
  over=['inputs', 'schedules', 'histories'], quant='every state of 4 processes at 3 priorities with 2 semaphores, one operation; every interleaving of 3 interrupt handlers',
  why='which process is lost or passed over depends on the order of events in lists that tests visit in few states, and on interrupts between two instructions',
  files=['libgst/interp.c', 'libgst/prims.def'], mech='remove_process_from_list, add_first_link, add_last_link, _gst_sync_signal, sync_wait_process, resume_process, suspend_process, highest_priority_process, next_scheduled_process, active_process_yield, _gst_async_call_internal, empty_async_queue',
  tech=CB, note='One operation from every well-formed state, so that histories of any length are covered as long as each step stays in it; the switch of contexts itself is outside.'),
 dict(id='P21', title='A message runs the nearest method, whose answer replaces its arguments',
  statement='A message activates the method that the nearest class along the superclass chain of the class where the search starts has for the selector, whatever was sent before and whatever the caches remember; caches hold only what the classes say, and forget everything when the classes change. The method runs with the receiver as self, the arguments in order, its temporaries nil and a stack of the size it asks for, from its first bytecode; a primitive is tried first and once; methods that only answer self, an instance variable or a literal answer just that. Only verified methods run. A block given the number of arguments it takes (or, where it may drop some, more) runs in the same way with the receiver and the variables of the context that made it; given another number it fails and nothing changes. When the method or block returns, its sender goes on exactly where it was, with the answer in place of the receiver and the arguments, and the context is given back. perform: accepts exactly the number of arguments that the method found takes.',
  over=['inputs', 'histories'], quant='every receiver class, defining class and content of the cache place over 3 classes and 3 selectors; 0 to 7 arguments, 0 to 3 temporaries',
  why='a stale or confused cache entry needs a particular earlier message in the same place of the cache, and many arguments or temporaries are rare; tests meet few of these',
  files=['libgst/interp.c', 'libgst/interp-bc.inl'], mech='_gst_send_message_internal, _gst_find_method, check_send_correctness, _gst_send_method, send_block_value, prepare_context, activate_new_context, unwind_context, _gst_invalidate_method_cache',
  tech=CB, note='One send from every state of the cache that agrees with the classes, and the state after it agrees again. Messages nobody understands, user-defined method classes and non-local returns are outside.'),
 dict(id='N01', title='Garbage collection keeps every reachable object unchanged',
  statement='Whatever is allocated and whenever a scavenge, a full collection or a compaction happens, every object that the program can still reach keeps its identity, class and contents, and weak references and finalization see exactly the objects that died.',
  over=['histories', 'schedules'], quant='not decided here', why='tests visit single programs and heaps', files=['libgst/oop.c', 'libgst/alloc.c'], mech='_gst_scavenge, cheney_scan, _gst_compact', tech=CB,
  na='The collectors walk mmap-ed spaces by address arithmetic (page faults and mprotect serve as the write barrier): one scavenge of a heap of three objects already exceeds what CBMC can unroll, and anything smaller would be a model and not the code.'),
 dict(id='N02', title='A saved image comes back as the same objects',
  statement='Saving an image and starting from it, on the same or another machine word order, gives the same objects with the same references, and a damaged or foreign image is refused.',
  over=['inputs', 'crash_points'], quant='not decided here', why='tests visit single programs and heaps', files=['libgst/save.c'], mech='_gst_save_to_file, _gst_load_from_file', tech=CB,
  na='The object table and heap are written in one pass over hundreds of thousands of objects at absolute addresses; the loader is inseparable from the memory maps, and no bounded heap that CBMC can hold passes its consistency checks.'),
 dict(id='N03', title='Compiled methods mean what their source says',
  statement='For every program text, the byte codes that the compiler produces have the meaning of the source: evaluation order, blocks, non-local return, cascades, inlined control structures; malformed text is rejected with a message and nothing else happens.',
  over=['inputs'], quant='not decided here', why='tests visit single programs and heaps', files=['libgst/comp.c', 'libgst/lex.c', 'libgst/gst-parse.c', 'libgst/opt.c'], mech='_gst_compile_method, _gst_optimize_bytecodes', tech=CB,
  na='The lexer, parser, compiler and optimiser build linked trees in obstacks over unbounded text; symbolic texts of even four characters fork without bound. (The Smalltalk engine executes the source of the class library with its own parser, so it does not see the compiler.)'),
 dict(id='N04', title='Exceptions unwind exactly the contexts between signal and handler',
  statement='ensure: and ifCurtailed: blocks run exactly once on every path out of a block, handlers are found from the innermost outwards, and return:, retry, pass, resume: and outer continue where they are documented to.',
  over=['histories'], quant='not decided here', why='tests visit single programs and heaps', files=['libgst/interp.c', 'libgst/interp-bc.inl', 'kernel/ContextPart.st'], mech='unwind_context, ContextPart>>#unwind:, Signal>>#return:', tech=CB,
  na='Needs the context machinery of the virtual machine (reified contexts, disabled and unwind contexts) together with the Smalltalk code on top of it; neither engine represents contexts as objects.'),
 dict(id='N05', title='Float arithmetic, printing and reading round correctly',
  statement='Float operations are the IEEE ones, a printed Float reads back as the same Float with the fewest digits, and conversion from and to integers rounds as documented.',
  over=['inputs'], quant='not decided here', why='tests visit single programs and heaps', files=['libgst/prims.def', 'kernel/Float.st', 'libgst/mpz.c'], mech='VMpr_FloatD_arith, Float>>#printOn:, _gst_mpz_get_d', tech=CB,
  na='Printing works with integers of up to a thousand digits derived from the operand (Steele-White), which the symbolic engine can only do one concrete Float at a time, and the transcendental functions come from libm, of which there is no source here.'),
 dict(id='N06', title='Files, sockets, call-outs and databases transfer data faithfully',
  statement='Bytes written are the bytes read, call-outs convert every argument and result exactly, and errors of the system are reported to the caller.',
  over=['inputs', 'fault_sequences'], quant='not decided here', why='tests visit single programs and heaps', files=['libgst/prims.def', 'libgst/cint.c', 'packages/sockets'], mech='VMpr_FileDescriptor_fileOp, _gst_invoke_croutine', tech=CB,
  na='The behaviour lies in the kernel, libffi and other libraries, which are outside the code that can be encoded.'),
]
