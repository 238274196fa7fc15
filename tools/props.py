prop('A01', 'Data of an opened file is never modified',
     'Once a serialized file or buffer has been opened, nothing reachable through the reader API or the Python objects (lookup, comparison, '
     'hashing, printing, sorting, re-serialization, buffer export) ever writes to its bytes. The file is opened and mapped without write '
     'permission, its mapping and handle are never made writable, and every buffer or memoryview exported over its data is read-only.',
     ['inputs', 'histories', 'programs'], 'all files, all sequences of API calls on an opened file, all Python programs using its objects',
     'Tests sample a few calls on a few files; an accidental write (or a writable export) on one path only shows when that path runs, and then as a '
     'crash or as silent corruption of a shared mapping.',
     ['src/pointless_reader.c', 'src/pointless_reader_helpers.c', 'src/pointless_hash.c', 'src/pointless_cmp.c', 'python/pointless_vector.c', 'python/pointless_bitvector.c'],
     [('read-only mapping of the file', 'src/pointless_reader.c:_pointless_open_f'), ('accessors returning pointers into the mapping', 'src/pointless_reader.c'),
      ('buffer export of mapped vectors', 'python/pointless_vector.c:PyPointlessVector_getbuffer')],
     'whole-program pointer-provenance dataflow on LLVM IR (mapped data -> stores, writing calls, buffer exports)',
     note='Sound for direct stores, memory intrinsics and the listed writing libc calls, up to field-based aliasing; external functions outside the list are assumed not to write. Also checks open mode, mmap protection, mprotect, read-only flag of buffer exports.')

prop('A02', 'Serializing to a file publishes atomically or not at all',
     'Serializing to a file name makes the complete new content appear under that name in one atomic step, after all data has been written, flushed '
     'and synced to disk under a temporary name in the same directory. If any step fails, failure is reported, the previous file under that name is left '
     'untouched, the temporary file is removed and no handle stays open. No other code path of the library creates, truncates, renames or removes files.',
     ['crash_points', 'fault_sequences'], 'every crash point and every failing system call during serialization to a file',
     'Tests only exercise the path on which every system call succeeds; the ordering and the failure paths never run.',
     ['src/pointless_create.c', 'python/pointless_create.c'],
     [('temporary file, flush, sync, rename', 'src/pointless_create.c:pointless_create_output_and_end_f'), ('stream writers', 'src/pointless_create.c:file_write'),
      ('alignment writer', 'src/pointless_create.c:file_align_4')],
     'path-sensitive typestate (property simulation) of the publication protocol over LLVM IR, each system call forked into success and failure',
     note='Every path of the publishing function with helpers inlined; each syscall result followed to the return value. Assumes POSIX rename atomicity. Directory fsync is not claimed.')

prop('A09', 'The interpreter lock is held whenever Python state is touched',
     'While the Python extension has released the interpreter lock it uses no Python API and no memory owned by a mutable Python object, and every release is '
     'paired with exactly one re-acquisition on every path before control returns to the interpreter. Mapping, validating and unmapping a file always happen with the lock released.',
     ['schedules', 'fault_sequences'], 'every interleaving of Python threads and every success or failure path through opening and closing',
     'The tests are single threaded and only open valid files; a race or a lock imbalance on an error path needs a specific schedule or failure.',
     ['python/pointless_object.c', 'src/pointless_reader.c', 'src/pointless_validate.c'],
     [('lock release around open', 'python/pointless_object.c:PyPointless_init'), ('lock release around close', 'python/pointless_object.c:PyPointless_dealloc')],
     'lock-state dataflow per program point plus call-graph effect closure (CPython API reachability, indirect calls resolved) and provenance of mutable-object memory',
     note='All functions; call graph with resolved function pointers. Ownership of buffers is tracked by provenance from bytearray, primitive-vector and bitvector storage.')

prop('A10', 'Independent objects share no hidden mutable state',
     'Using one reader, writer, vector, bitvector or iterator object never changes state visible to another: the library keeps no writable '
     'global or function-static data after module initialisation and uses no process-global C library state (current directory, environment, random generator, static result buffers). '
     'Different objects may therefore be used from different threads at the same time.',
     ['schedules', 'histories'], 'all interleavings of operations on distinct objects, all histories within one process',
     'Interference needs two objects used concurrently or in a particular order; tests use one object at a time.',
     ['src', 'python', 'pointless_ext.c'],
     [('constant lookup and dispatch tables', 'python/pointless_prim_vector.c, src/pointless_cmp.c, src/pointless_hash.c'), ('module initialisation', 'pointless_ext.c:PyInit_pointless')],
     'effect analysis of every write and address escape of every global or static variable in the linked IR, plus banned process-global libc calls',
     note='Complete over the linked program: each mutable global is an obligation. Python-owned type objects are mutated by CPython only.')

prop('A03', 'No failed operation is reported as success, and every failure is explained',
     'Every function of the C library that meets a failure (allocation failure, failed system call or short write, malformed data, failing callback or comparison, failing callee) '
     'reports failure to its own caller, up to the public API: it never returns its success value after a failure on the same path. Whenever a function that takes an error '
     'message parameter reports failure, it has stored a message there; whenever it reports success no error message is pending.',
     ['fault_sequences', 'inputs'], 'every subset of failing operations on every path of every library function',
     'Tests almost never make an allocation, a write or a comparison fail, so the hundreds of error branches are never run.',
     ['src', 'python'],
     [('writer callbacks and stream errors', 'src/pointless_create.c:pointless_create_output_and_end_'), ('validator passes', 'src/pointless_validate.c:pointless_validate'),
      ('sort comparison errors', 'src/custom_sort.c'), ('export state error flag', 'python/pointless_create.c:pointless_export_py_rec')],
     'bottom-up path-sensitive failure-propagation analysis (property simulation) with inferred failure summaries, over LLVM IR of the whole program',
     note='All functions; 850+ fallible operations, each forked into success and failure. Joins keep paths apart by failing operation. The pairing of message and failure is by error out-parameter inferred from the sources.')

prop('A13', 'Error values and Python exceptions always go together',
     'Every function of the extension that the interpreter calls (methods, slots, getters, constructors, module functions, iterators) returns its error value (NULL or -1) if and only if a Python '
     'exception is set, on every path, including failed allocations and exceptions raised by user code it calls. No normal result is ever returned with an exception pending, and no '
     'exception raised by user code (iterators, comparisons, hashing, conversions) is lost.',
     ['inputs', 'fault_sequences', 'programs'], 'all Python programs, all inputs, every failing allocation or raising callback',
     'A missing or stray exception only appears when a particular call fails; tests raise a handful of the errors.',
     ['python', 'pointless_ext.c'],
     [('method tables and type slots', 'python, pointless_ext.c'), ('iteration over user iterables', 'python/pointless_bitvector.c:PyPointlessBitvector_init'),
      ('hash and comparison callbacks', 'python/pointless_pyobject_hash.c, python/pointless_pyobject_cmp.c')],
     'exception-state typestate over all interpreter-called functions, path-sensitive, with callee summaries, on LLVM IR',
     note='All functions found in the type and method tables of the linked program; CPython calls modelled by their documented error value.')

prop('A08', 'Nesting depth never exhausts the C stack',
     'No value, file or Python object, however deeply nested or cyclic, makes the library recurse without bound: every recursion of the library (validation, cycle detection, hashing, '
     'comparison, printing, walking, export, conversion, sorting) is limited to a fixed number of levels, beyond which it reports an error or stops, '
     'and no stack allocation depends on input.',
     ['inputs'], 'all values and files of any nesting depth, any sharing and any cycles',
     'A missing depth check only shows on inputs nested tens of thousands of levels deep, reached through one particular operation; tests use shallow values.',
     ['src/pointless_cycle_marker.c', 'src/pointless_hash.c', 'src/pointless_cmp.c', 'src/pointless_walk.c', 'src/pointless_recreate.c', 'src/custom_sort.c', 'python/pointless_create.c',
      'python/pointless_print.c', 'python/pointless_pyobject_cmp.c', 'python/pointless_pyobject_hash.c'],
     [('depth limit', 'include/pointless/pointless_defs.h:POINTLESS_MAX_DEPTH'), ('depth guard of the export', 'python/pointless_create.c:pointless_export_py_rec'),
      ('depth guard of cycle detection', 'src/pointless_cycle_marker.c:pointless_cycle_marker_visit')],
     'call-graph cycle enumeration (function pointers resolved) plus path-sensitive proof, per cycle, of a depth counter that grows and is compared with a limit on every way round',
     note='Every strongly connected component of the whole-program call graph is an obligation; 14 cycles with 51 recursive calls today. Recursion through the interpreter is left to CPython.')

prop('A14', 'Failures never lead to a null dereference, and nothing is used after its release',
     'Whatever operation fails (allocation, system call, Python call, iterator, conversion), no function of the library or the extension dereferences the null result or hands it to a '
     'function that dereferences it. Memory and Python references that were released (freed, decremented, closed, or given away to a container) are never read, written, passed on, '
     'returned or released again on any path.',
     ['fault_sequences', 'inputs', 'histories'], 'every subset of failing operations on every path of every function, and every history that reaches a release',
     'Null results and early releases only matter when a specific allocation fails or the released object had its last reference; tests make neither happen.',
     ['src', 'python', 'pointless_ext.c'],
     [('allocation checks of the validator', 'src/pointless_validate.c:pointless_validate'), ('cleanup code of value creation', 'src/pointless_create.c'),
      ('destructors', 'python/pointless_vector.c:PyPointlessVector_dealloc'), ('dynamic arrays', 'src/pointless_dynarray.c')],
     'path-sensitive nullness and lifetime typestate with interprocedural summaries over LLVM IR, each fallible operation forked into success and failure',
     note='All functions. Pointers loaded from memory the function did not write are taken to be valid unless tested; elements inside dynamic arrays are not followed individually.')

prop('A15', 'Everything acquired is released exactly once',
     'Every Python reference, heap block, file handle, mapping and Judy array that an operation acquires is, on every path including all failures, released exactly once, returned, or stored where a '
     'destructor releases it. Destructors release every field that owns something. An object that points into another object (a vector into its file, an iterator into its container) '
     'holds its own reference to it for its whole life, and functions never return or give away a reference they do not own.',
     ['fault_sequences', 'histories', 'inputs'], 'every path of every function, every failing operation, every sequence of object creation and destruction',
     'A leak or a missing reference is invisible to functional tests: results are right until memory runs out or the owner is collected first.',
     ['src', 'python', 'pointless_ext.c'],
     [('object constructors and destructors', 'python'), ('iterators keep their container', 'python/pointless_map.c:PyPointlessMap_iter'),
      ('value creation and its cleanup', 'src/pointless_create.c'), ('open and close of files', 'src/pointless_reader.c')],
     'path-sensitive ownership typestate (reference and allocation balance) with per-outcome callee summaries over LLVM IR',
     note='All functions; destructors checked against every field an owned value is stored in. Elements owned by dynamic arrays are not followed individually; immortal objects are ignored.')

prop('A16', "Elements are handled with the width, signedness and kind of their type",
     'Wherever an operation looks at the type of a vector (file vectors, vectors under construction, primitive vectors) or value, what it then does is right for that type: elements are read and '
     'written with their width, extended, compared, printed and converted to Python numbers with their signedness and not cut, item sizes and byte counts use the size of the type, values '
     'made from elements get the type that can hold them, callbacks and type names belong to the type, no supported type is forgotten where the others are handled. A number given by the '
     'user is stored in an element only when it is in the range of the element type.',
     ['inputs'], 'every operation, every element type, every element value (sign bit, full width) and every number given by the user',
     'A wrong case among nine types shows only for that type and only for elements beyond the sign bit or the smaller width; the tests sample small numbers and few types.',
     ['src', 'python'],
     [('primitive vectors', 'python/pointless_prim_vector.c'), ('number parsing', 'python/pointless_prim_vector.c:pypointless_parse_number'),
      ('reading of elements', 'python/pointless_vector.c:PyPointlessVector_subscript_priv'), ('serialisation and compression', 'src/pointless_create.c:pointless_serialize_vector_priv'),
      ('comparison and hashing of elements', 'src/pointless_cmp.c'), ('copies between files', 'src/pointless_recreate.c')],
     'evaluation of every function per element type (conditional constant propagation over LLVM IR with the type tag fixed), type rules on the accesses, conversions, sizes and callbacks left; interval analysis of number parsing',
     note='Tags and elements are related by canonical access paths. Shapes without a tag in the same (inlined) function are not judged. Which constant is right is taken from the format\'s type numbers.')

prop('A17', 'Positions are checked against the length they are used on',
     'Every access the Python layer makes to an item of a primitive vector, to an element of a vector (or slice) of a file and to a bit of a bitvector has a position between 0 and the number of items that very object '
     'has at that moment: indices given by the user (negative ones included), positions of iterators, positions found by a search, start and end of slices and indices read from index vectors are compared with '
     'the current length, after any user code that may have changed it has run; a slice stays inside the vector it was made from, and the part of a file a vector stands for never changes after it was made. '
     'Everything else is an IndexError, ValueError or the end of the iteration.',
     ['inputs', 'histories', 'programs'], 'all indices, slices and lengths, all sequences of operations, all user callbacks (__index__, __float__, iterators) that change the vector meanwhile',
     'An access one past the end, before the start, or into a vector that has just been shortened mostly reads plausible bytes; tests try a few indices on vectors nobody changes.',
     ['python/pointless_prim_vector.c', 'python/pointless_vector.c', 'python/pointless_bitvector.c', 'python/pointless_print.c', 'python/pointless_create.c', 'python/pointless_pyobject_cmp.c', 'python/pointless_pyobject_hash.c'],
     [('indices of primitive vectors', 'python/pointless_prim_vector.c:PyPointlessPrimVector_check_index'), ('indices and slices of file vectors', 'python/pointless_vector.c:PyPointlessVector_check_index, PyPointlessVector_New'),
      ('indices of bits', 'python/pointless_bitvector.c:PyPointlessBitvector_check_index'), ('remapping', 'python/pointless_prim_vector.c:PyPointlessPrimVector_from_remap')],
     'abstract interpretation over LLVM IR: lengths named at every load and invalidated by user code and shrinking calls, linear-inequality entailment of 0 <= position < length at every access',
     note='About 90 functions and 650 accesses. Not judged, and counted in the evidence: positions handed out by the sort, positions given through the C interface, the middle of a binary search, copies of whole storages, the room a growing bitvector makes for itself.')

prop('A18', 'Text keeps all of its characters',
     'Wherever the characters of a string are read - Python strings in any of their three internal widths, string and unicode values of files - they are read with the width that very string has and taken as '
     'unsigned numbers; a character is stored, converted, hashed, compared or printed with fewer bits than it has only after all characters of the string (or that one) were found to fit into them.',
     ['inputs'], 'all strings: every mixture of Latin-1, other BMP and supplementary characters, in every function that serializes, hashes, compares, prints, looks up or returns text',
     'The representation of a string depends on its largest character; a function that is right for one width and wrong for another truncates or misreads only particular strings, and tests contain mostly ASCII.',
     ['python/pointless_create.c', 'python/pointless_print.c', 'python/pointless_pyobject_hash.c', 'python/pointless_pyobject_cmp.c', 'python/pointless_instance_dispatch.c', 'src/pointless_unicode_utils.c', 'src/pointless_hash.c', 'src/pointless_cmp.c'],
     [('serialization', 'python/pointless_create.c:pointless_export_py_rec'), ('tests of widths and conversions', 'src/pointless_unicode_utils.c'),
      ('hashing', 'python/pointless_pyobject_hash.c:pyobject_hash_unicode_32'), ('comparison', 'python/pointless_pyobject_cmp.c:pypointless_cmp_string_unicode'), ('printing', 'python/pointless_print.c')],
     'width analysis of character pointers over LLVM IR, partitioned by string kind: access width, extension and guarded truncation per use, interprocedural summaries; semantic recognition of whole-string range tests',
     note='About 50 places where characters are obtained. Comparison results and hash values themselves are not decided, only what they are computed from.')

prop('A19', 'A vector hashes the same wherever it is',
     'Every implementation of the hash of a vector or tuple - of Python tuples, primitive vectors, (slices of) vectors in a file and vectors being written, compressed or not - feeds for an element of a '
     'given type the same function of its value into the hash, feeds every item exactly once, and starts the hash with the number of items that it feeds.',
     ['inputs', 'configurations'], 'all element types, all element values, all lengths and slices',
     'Hash tables in files are built with one implementation and searched with another: a disagreement on one element type or on slices makes keys of that kind unfindable, while all others work.',
     ['src/pointless_hash.c', 'python/pointless_pyobject_hash.c'],
     [('in a file', 'src/pointless_hash.c:pointless_hash_reader_vector_32_priv'), ('being written', 'src/pointless_hash.c:pointless_hash_create_vector_32'),
      ('Python objects', 'python/pointless_pyobject_hash.c:pyobject_hash_primvector_32, pyobject_hash_tuple_32')],
     'comparison of normal forms: the value fed into the hash is normalised per element type by tag-indexed evaluation over LLVM IR and compared between all implementations; loop coverage and length matching',
     note='The hash functions of scalars, strings and bitvectors are not compared (see A18 for characters).')

prop('A20', 'A file stays open as long as anything read from it exists',
     'A file object hands out values only while its file is open, is taken for open only after opening succeeded, and its file is closed - by its destructor or when it is re-initialised - only when no vector, '
     'set, map or bitvector refers to it any more, after it was marked closed. Every value that refers to a file holds one reference to the file object and is counted in it exactly once, in the counter of its '
     'kind, from its creation until that reference is released. A file object that was never opened, or could not be, raises a ValueError when it is used.',
     ['histories', 'inputs'], 'all sequences of creating, (re-)initialising, using and releasing file objects and values, all failures of opening',
     'Values point straight into the mapped file: one close too early, or one value not counted, turns every later access into a read of unmapped memory, only for that order of operations.',
     ['python/pointless_object.c', 'python/pointless_vector.c', 'python/pointless_set.c', 'python/pointless_map.c', 'python/pointless_bitvector.c'],
     [('file objects', 'python/pointless_object.c:PyPointless_init, PyPointless_dealloc, PyPointless_check_open'), ('vectors', 'python/pointless_vector.c:PyPointlessVector_New, PyPointlessVector_dealloc'),
      ('bitvectors', 'python/pointless_bitvector.c:PyPointlessBitvector_New, PyPointlessBitvector_init'), ('sets and maps', 'python/pointless_set.c:PyPointlessSet_New, python/pointless_map.c:PyPointlessMap_New')],
     'path-sensitive typestate of the file object (open, marked, counted, closed) over LLVM IR; pairing of counters, references and fields by dominance in constructors and destructors',
     note='8 methods of the file object and 13 counting sites of the four kinds of values. Iterators hold their container (A15). Concurrent re-initialisation of one file object by two threads is not judged.')

prop('A04', 'What open() accepts has been validated',
     'A file or buffer is opened successfully (unless the caller switched validation off) only after every structure that reading relies on was checked: the header and the five offset tables lie '
     'inside the data; every reference reachable from the root is below the count of its kind; the item counts, character data with terminator, elements, bits and set/map headers it leads to lie '
     'inside the heap, without arithmetic wrap-around; type tags are known; the data of booleans, nulls and empty values is one of the values they can have; set and map headers name vectors of the prescribed types and equal lengths; every bucket of a hash table is hashable, has the right hash and is found by '
     'probing; nesting stays below the depth limit; and no reference to a hashable vector is one the cycle search marked. No byte of the data is read before the check that covers it, and all other data is refused with an error.',
     ['inputs'], 'all byte strings passed as file or buffer, of any length',
     'The format is parsed from untrusted bytes: the space of malformed files cannot be sampled by a handful of test files, and all tests open well-formed files.',
     ['src/pointless_validate.c', 'src/pointless_validate_heap_ref.c', 'src/pointless_validate_heap.c', 'src/pointless_validate_hash_table.c', 'src/pointless_walk.c', 'src/pointless_reader.c', 'src/pointless_int_ops.c', 'src/pointless_cycle_marker_wrappers.c', 'src/bitutils.c'],
     [('validator callback', 'src/pointless_validate.c:pointless_validate_pass_cb'), ('header and tables', 'src/pointless_reader.c:pointless_init'),
      ('hash tables', 'src/pointless_validate_hash_table.c:pointless_hash_table_validate'), ('walk', 'src/pointless_walk.c:pointless_walk_priv'),
      ('cycle search callbacks', 'src/pointless_cycle_marker_wrappers.c')],
     'abstract interpretation of the validator per type tag and pass over LLVM IR: interval and linear-inequality facts entail each format obligation at every read and every accepting return; per-index loop coverage',
     note='Every type tag (and undefined tags) times every pass; each heap or table read and each accepting return is an obligation. The result of the cycle search itself (Tarjan) and the probe sequence are not verified, only that they are consulted for everything.')

prop('A12', 'A Python object is only used as a type it was proved to be',
     'No argument of the wrong type, no item of a user sequence and no value found in a container is ever accessed as if it were a different kind of object: whenever the extension reads or writes the '
     'inside of a Python object directly (fields of its own types, unchecked item, size and data access to lists, tuples, strings, bytes, bytearrays, floats, integers, sets, dicts and slices), the type of '
     'that object has been tested on that path, follows from how it was created or parsed, or is guaranteed by the slot being called. Wrong types lead to a Python exception.',
     ['inputs', 'programs'], 'all Python programs passing any object as any argument or item to any function',
     'An argument of the wrong type works by accident or crashes only for particular layouts; tests pass a few wrong types to a few functions.',
     ['python', 'pointless_ext.c'],
     [('argument parsing', 'pointless_ext.c, python/pointless_prim_vector.c'), ('type dispatch of comparison', 'python/pointless_pyobject_cmp.c:pypointless_cmp_func'),
      ('type dispatch of serialization', 'python/pointless_create.c:pointless_export_py_rec'), ('methods and slots', 'python')],
     'whole-program type-fact analysis: path-sensitive type tests at every access, unmet requirements propagated backwards through parameters, fields, results and function selection (LLVM IR)',
     note='All functions of the extension; about 1000 accesses. Slots and methods receive self of the type they are registered for.')

prop('A11', 'Storage that is exported or borrowed does not move',
     'While a memoryview or other buffer over a primitive vector is alive, no operation frees, reallocates, grows or shrinks the storage behind it: every operation that would, whether called directly or by '
     'user code that the library itself runs (iterators, conversions, __index__, __float__, __init__ called again), raises BufferError and leaves the vector alone. Exports are counted exactly: a successful '
     'export adds one, a failed one none, a release takes one away, and nothing else changes the count; a buffer keeps the object it came from alive. Inside the library, a pointer to an element of a growable array is never used '
     'after that array may have been resized or freed, and an array is never extended from a pointer into its own storage.',
     ['histories', 'programs', 'inputs'], 'all sequences of operations on vectors and their views, all user callbacks, all fill levels of the arrays',
     'The storage only moves at particular fill levels and only a program that holds a view, or whose callback changes the vector being worked on, can tell; no test does either.',
     ['python/pointless_prim_vector.c', 'python/pointless_vector.c', 'python/pointless_bitvector.c', 'src/pointless_dynarray.c', 'src/pointless_create.c'],
     [('export counter', 'python/pointless_prim_vector.c:PointlessPrimVector_getbuffer'), ('resize guard', 'python/pointless_prim_vector.c:PyPointlessPrimVector_can_resize'),
      ('growable array', 'src/pointless_dynarray.c'), ('arrays of values while a file is created', 'src/pointless_create.c')],
     'path-sensitive typestate (export counter tested since the last call that may run user code) at every resizing call; may-be-stale dataflow of pointers into growable storage with call-graph summaries (LLVM IR)',
     note='All functions. The resizing functions are derived from their stores; user code is every C API call not on a list of quiet ones. Whether an index is inside the array is decided by A17.')
