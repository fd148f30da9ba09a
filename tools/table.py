LISTS = 'IntArrayList, BigIntArrayList, IntLinkedList, ObjectArrayList and ObjectLinkedList'
prop('C01', 'Lookups agree with a Python list',
     'For every content and argument, len(), x[i] (negative and out-of-range i included), x in l, l.index(x[, start[, stop]]) and l.count(x) of %s give the value, or raise the exception type, that a Python list with the same elements gives. They leave the container unchanged.' % LISTS,
     HIST, 'all contents of any length, all integer and non-integer arguments, all three index() arities, linked lists after any history of operations',
     'The tests look up a handful of values in lists of a few fixed sizes; boundary indices (-len-1, beyond 2**31, stop < start) and every length/history are out of their reach.',
     AL, [('sq_item/mp_subscript/sq_contains/index/count of each class', 'the five container sources')], ['return value', 'exception type', 'content afterwards'])
prop('C02', 'Single-element updates agree with a Python list',
     'For every content and argument, append, insert, pop, remove, x[i] = v, del x[i] and clear of %s leave exactly the elements, in order, that the same operation leaves in a Python list, and return the same value or raise the same exception type. When they raise, the content is unchanged.' % LISTS,
     HIST, 'all contents, all indices (negative, clamped, out of range), all element values of the element range, wrong-typed arguments, allocation failures of the interpreter',
     'Tests run a few fixed sequences; an off-by-one at one position, a wrong clamp at an extreme index or a linked-list cache left stale after one particular history is not sampled.',
     AL, [('append/insert/pop/remove/sq_ass_item/mp_ass_subscript/clear of each class', 'the five container sources')], ['content', 'return value', 'exception type'])
prop('C03', 'Slices agree with a Python list',
     'For every content and every slice, x[i:j:k], x[i:j] = values and del x[i:j] of %s select, replace and remove exactly the elements a Python list would; slice assignment and deletion with a step other than 1 raise NotImplementedError and change nothing. A subscript that is neither an integer nor a slice raises TypeError.' % LISTS,
     ['inputs'], 'all start/stop/step combinations including negative steps and bounds outside the list, all right-hand sides',
     'The tests use a few in-range slices; the arithmetic over start, stop, step and length has no finite sample that settles it.',
     AL, [('mp_subscript/mp_ass_subscript slice branches', 'the five container sources')], ['content', 'returned elements', 'exception type'])
prop('C04', 'Concatenation and repetition agree with a Python list',
     'extend, +, +=, * and *= of %s yield the elements of the operands in order (the repetition count times), for every operand content and length, including when the operand is the container itself; += and *= modify and return the same object, + and * return a new one and leave the operands unchanged.' % LISTS,
     ['inputs'], 'all lengths, all repetition counts including zero, negative and overflowing ones, self as operand, arbitrary iterables that fail part-way',
     'Block copies for repetition and growth are wrong only at particular lengths; tests repeat a three-element list two or three times.',
     AL, [('extend/sq_concat/sq_inplace_concat/sq_repeat/sq_inplace_repeat/__rmul__', 'the five container sources')], ['content', 'identity of the result', 'exception type'])
prop('C05', 'Construction and conversion preserve the elements',
     'Building a container from an iterable, from_range, copy, to_list and resize of %s produce exactly the specified elements: those of the iterable, those of range(start, stop, step), the same elements in a distinct object, or the old prefix padded with 0 / None.' % LISTS,
     ['inputs'], 'all iterables, all (start, stop, step) triples including negative steps and values near the integer limits, all sizes',
     'Tests construct from short lists and ranges; length arithmetic of from_range and growth in resize depend on values near the machine limits that no sample covers.',
     AL + UT, [('init/from_range/copy/to_list/resize and PyParse_EvalRange', 'the five container sources, PythonUtils.h')], ['content of the new object', 'exception type'])
prop('C06', 'Sorting and reversing are permutations in the right order',
     'sort (with and without key and reverse) and reverse of %s leave a permutation of the elements in the order list.sort and list.reverse give, stable for equal keys, for every length; a failing key or comparison is reported as the exception it raised and loses no element.' % LISTS,
     ['inputs'], 'all lengths (every block and tail size of the vectorised reverse), all values, all key functions',
     'Which code path runs depends on the length; tests sort a few short or random lists and never fail inside a key function.',
     AL + ['pyfastutil/src/utils/simd/BitonicSort.cpp', 'pyfastutil/src/utils/include/qreverse.hpp'], [('sort/reverse', 'the five container sources'), ('simdsort', 'BitonicSort.cpp'), ('qReverse', 'qreverse.hpp')], ['content', 'exception type'])
prop('C07', 'Comparisons agree with list comparison',
     'For every pair of contents, <, <=, ==, !=, > and >= between two %s of the same class, or between one and any Python sequence, give the truth value that comparing two Python lists with those elements gives: the first position where the elements differ decides, else the lengths do. Against an object that is not a sequence every comparison but != is False. An exception raised while comparing elements is the exception of the comparison; operands are unchanged.' % LISTS,
     ['inputs'], 'all pairs of contents and lengths, self compared with itself, all six operators, arbitrary sequences on the other side, element comparisons that raise',
     'Tests compare a few short lists; the position of the first difference, unequal lengths and the six operators multiply beyond any sample.',
     AL, [('tp_richcompare of each class', 'the five container sources')], ['truth value', 'exception'])
prop('C08', 'Iterators yield what list iterators yield, also across modifications',
     'iter() and reversed() of %s start at the first and last element; each next() yields the element now at the iterator\'s index and moves one position, whatever appends, insertions, deletions or other operations happened to the container in between; once past the end an iterator stays exhausted whatever is appended later. Every operation that changes the structure of a linked list makes the cached positions of its iterators invalid, so none is ever followed after its node moved or was freed.' % LISTS,
     HIST, 'all interleavings of next() with every other operation, both directions, all contents',
     'An iterator caches a node and an index; only a particular edit between two particular next() calls shows a stale cache, and the tests only iterate over unmodified containers.',
     AL + [f.replace('.cpp', 'Iter.cpp') for f in AL] + ['pyfastutil/src/utils/Utils.h'], [('tp_iternext with index and cached node, updateCache', 'the five *Iter.cpp sources'), ('modCount++ after each structural change', 'IntLinkedList.cpp, ObjectLinkedList.cpp')], ['yielded elements', 'StopIteration', 'memory accesses'])
prop('C10', 'Every reference is released or handed over exactly once',
     'Along every path of every operation of %s, including all failing ones, each Python object acquired is released or handed over exactly once: elements are owned once per occurrence in the container, arguments are borrowed, and temporary blocks are freed.' % LISTS,
     ['inputs', 'fault_sequences'], 'all paths of all entry points, with every allocation and callback of the interpreter allowed to fail',
     'Tests never look at reference counts, and error paths need an allocation or a callback to fail at one particular place.',
     AL + UT, [('PyFast_INCREF/PyFast_DECREF discipline in every entry point', 'the container sources')], ['reference counts', 'allocated blocks'])
prop('C11', 'No operation touches memory outside live storage',
     'No operation of %s reads or writes outside the storage of live objects, uses storage after it was freed or reallocated, or reads storage that was never written, whatever the arguments and contents.' % LISTS,
     ['inputs'], 'all paths of all entry points, all contents and arguments',
     'An access one past the end usually goes unnoticed by a test; the offending lengths and indices are rare.',
     AL, [('bounds checks before each element access; iterator and pointer validity', 'the container sources')], ['memory accesses'])
prop('C12', 'Failure is reported exactly when an exception is set',
     'Every operation of %s either succeeds with no exception pending or returns the failure value with an exception set, never mixes the two, and lets no C++ exception escape into the interpreter.' % LISTS,
     ['inputs', 'fault_sequences'], 'all paths of all entry points, with every interpreter call and allocation allowed to fail',
     'Tests reach few error paths, and a swallowed or stray exception often surfaces only at a later, unrelated call.',
     AL + UT, [('checks of PyErr_Occurred and of returned nulls, try/catch blocks', 'the container sources')], ['pending exception', 'return value'])
prop('C13', 'Interpreter calls happen only while holding the GIL',
     'Every operation of %s that releases the interpreter lock re-acquires it before it calls into the interpreter, sets an exception, unwinds or returns, on every path.' % LISTS,
     ['inputs', 'fault_sequences'], 'all paths through every region that releases the lock, including those left by a C++ exception',
     'The window is left only by allocation failures, which no test provokes.',
     AL, [('Py_BEGIN_ALLOW_THREADS regions', 'the container sources')], ['interpreter lock state'])
prop('C14', 'Unsafe performs exactly the memory operation it names',
     'Given valid addresses, each method of Unsafe does what its name says and nothing else: malloc, calloc, realloc and aligned_malloc return the address of a block of the requested size (zeroed, with the old bytes kept, with the requested alignment) or raise MemoryError; free and aligned_free release it; get, set, memcpy and memset read or write exactly the given bytes at exactly the given address and nothing beyond; callVoid, callInt, callLongLong and call invoke the function once and deliver its whole result; get_address, as_object, incref, decref and refcnt refer to exactly the given object and change its reference count only by what they name; fputs, fflush and fgets pass exactly the text. Wrong argument counts and non-numbers are rejected with an exception before any memory is touched, and no temporary block or reference is leaked on any path.',
     ['inputs', 'fault_sequences'], 'all sizes, byte contents and values, all argument counts and types, every failing allocation or conversion',
     'The tests use a handful of small blocks; size-dependent copy paths, sign and width of results, and error paths that need a failing allocation are not sampled.',
     ['pyfastutil/src/unsafe/Unsafe.cpp', 'pyfastutil/src/utils/memory/FastMemcpy.h', 'pyfastutil/src/utils/simd/SIMDUtils.h'],
     [('the 22 methods of the method table', 'Unsafe.cpp'), ('fast_memcpy / simdMemCpy', 'FastMemcpy.h, SIMDUtils.h')], ['returned value', 'bytes at the address', 'reference counts', 'allocated blocks'],
     note='All 22 methods with their helpers (fast_memcpy, simdMemCpy) are proved for all sizes and values; addresses given by the caller are assumed to denote live, sufficiently large, non-overlapping blocks. The C library, CPython conversions and the code behind function pointers are trusted contracts.')
prop('C15', 'SIMD block operations copy and reverse every element of every type',
     'For each of the 29 element types, every element count and every CPU feature level, SIMD.memcpyX and memcpyXAligned copy exactly count elements from the first to the second address, and reverseX leaves element count-1-k at position k (each element kept intact); nothing outside the block is written. setAVX512VectorN and setAVX2VectorN store their arguments as the vector elements, last argument first; isXSupported report the CPU flags. Wrong argument counts and arguments that are no numbers are rejected with an exception and leave the memory alone.',
     ['inputs'], 'all counts (every vector width, unrolling and tail size), all contents, all combinations of CPU features, all argument counts and types',
     'Which vector, unrolled or tail path runs depends on the count, the element type and the CPU; the tests copy a few fixed sizes on one machine.',
     ['pyfastutil/src/unsafe/SIMD.cpp', 'pyfastutil/src/utils/simd/SIMDUtils.h', 'pyfastutil/src/utils/include/qreverse.hpp'],
     [('memcpyX/memcpyXAligned/reverseX/setXVectorN/isXSupported', 'SIMD.cpp'), ('simdMemCpy<T>, simdMemCpyAligned<T>', 'SIMDUtils.h'), ('qReverse<N>', 'qreverse.hpp')], ['bytes of both blocks', 'exception'],
     note='Every method and every instantiation of the copy and reversal templates (all vector paths, lane by lane) is proved for all counts; addresses are assumed valid, non-overlapping and (Aligned variants) 64-byte aligned, short and char vector arguments in range. The CPUID code in SIMDHelper.cpp is trusted.')
prop('C16', 'Text and buffer views show exactly the elements',
     'repr() and str() of %s are the text of a Python list with the same elements (each element by its repr, separated by ", ", in brackets). The buffer of an IntArrayList or BigIntArrayList is a writable, contiguous, one-dimensional view whose items are exactly the elements in order: address of the first element, element count as shape, element size, total length in bytes and element format agree, and the view keeps the container alive.' % LISTS,
     ['inputs', 'fault_sequences'], 'all contents of any length including empty, all integer values, elements whose repr raises, allocation failures',
     'Tests print a couple of short lists and take one memoryview; a wrong separator for one length, a missing last element or a byte count in place of an item count needs no particular sample to be missed.',
     AL, [('tp_repr/tp_str of each class', 'the five container sources'), ('bf_getbuffer', 'IntArrayList.cpp, BigIntArrayList.cpp')], ['text', 'Py_buffer fields'])
prop('C17', 'Every SIMDLowAVX512 method is exactly the intrinsic it is named after',
     'For every operand value, each supported method x of SIMDLowAVX512 (892 of 1383) reads the operands its documentation lists (result address first unless the intrinsic is void; vectors, masks and pointers by address, ints and floats directly), stores exactly once to the result address the value the C intrinsic _x yields for them, in the width of its documented result type, performs the memory accesses of _x in the same order, changes no other memory and returns None; every operand is read before the result is stored, so in-place operation is safe. A wrong number of arguments raises TypeError. Each unsupported method raises NotImplementedError. A call that raises has written nothing. No reference is gained or lost.',
     ['inputs'], 'all operand bit patterns of all 892 supported methods, all argument counts of all 1383 methods',
     'No test calls this module; 35,000 lines of near-identical wrappers hide a swapped operand, a wrong mask width or a wrong intrinsic in a single method.',
     ['pyfastutil/src/unsafe/SIMDLowAVX512.cpp', 'pyfastutil/unsafe/SIMDLowAVX512.pyi'],
     [('SIMDLowAVX512__x / SIMDLowAVX512__x_impl for each method x, and the method table', 'SIMDLowAVX512.cpp')], ['bytes at the result address', 'exception', 'memory behind pointer operands'],
     note='Proved for all operands by congruence: the vendor intrinsics and vector instructions are uninterpreted functions, the reference is generated from the documented C prototypes (pfv/data/avx512.json) and compiled with the same flags. Operands are assumed to be of the documented kind (the module converts without checking) and their addresses valid. A data flow that differs syntactically from the reference is decided by running both natively on random operands.')
prop('C18', 'Low-level module objects never swallow exceptions and ASM refuses',
     'For Unsafe, SIMD, SIMDLowAVX512 and ASM, __enter__ returns the object itself (one new reference) and __exit__ returns None for every exception type, value and traceback, so that an exception raised in a with block always propagates. Every ASM method (run, runFast, makeFunction, makeFunctionFast, freeFunction, freeFunctionFast) raises NotImplementedError on this platform for every number and kind of arguments; it allocates nothing and executes nothing.',
     ['inputs'], 'all exceptions leaving a with block, all argument counts and kinds',
     'Tests use with blocks that do not raise, and never call ASM.',
     ['pyfastutil/src/unsafe/Unsafe.cpp', 'pyfastutil/src/unsafe/SIMD.cpp', 'pyfastutil/src/unsafe/SIMDLowAVX512.cpp', 'pyfastutil/src/unsafe/ASM.cpp'],
     [('X_enter, X_exit of each module; ASM_run ... ASM_freeFunctionFast', 'the four module sources')], ['returned value', 'exception', 'reference counts'])
