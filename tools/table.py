def st(name, meaning, where): return dict(name=name, meaning=meaning, where=where)
def me(name, where): return dict(name=name, where=where)

prop('M01', 'Objects live exactly as long as something strong refers to them',
 'An object is destroyed, and its DESTROY method called exactly once, at the moment the last strong reference to it (variable, field, array element, class variable, temporary, argument or return value) goes away, and not before. After a method returns or throws, no memory block it allocated remains unless something still reachable refers to it. No operation ever reads or writes a freed object.',
 ['histories', 'programs'], 'every sequence of assignments, field and element stores, calls, scope exits and exceptions over a small heap of objects, interpreted and precompiled',
 'Tests run a few fixed object graphs; aliasing, self-assignment, cycles through temporaries and exits by exception combine without bound.',
 [B+'spvm_api.c', B+'spvm_vm.c', 'lib/SPVM/Builder/include/spvm_implement.h', B+'spvm_opcode_builder.c', B+'spvm_precompile.c'],
 [st('ref_count', 'number of strong references to an object', B+'spvm_api.c'), st('mortal stack', 'local variables to release when a scope is left', B+'spvm_vm.c')],
 [me('assignment increments the new and decrements the old object', B+'spvm_api.c SPVM_API_assign_object'), me('scope exit releases the locals of the scope', B+'spvm_api.c SPVM_API_leave_scope_local')],
 ['DESTROY calls', 'count of memory blocks in use', 'field values'],
 'exhaustive operation-sequence exploration against a reference heap model',
 note='All operation sequences to a depth and breadth-first coverage of canonical heaps of at most 3 nodes, each transition replayed on the real runtime (ASan build) interpreted and precompiled; the order inside one destruction cascade is not compared.')

prop('M02', 'Weak references neither keep an object alive nor outlive it',
 'A field made weak does not keep its object alive; when the object is destroyed every weak reference to it, and no other field, becomes undef. Making a reference weak or strong again, reassigning it, or destroying its holder leaves all other references unchanged, and isweak reports exactly the fields that currently hold a weak reference.',
 ['histories'], 'every sequence of weaken, unweaken, assign, undef, holder release and target release over several holders of shared targets',
 'Tests weaken one or two fields in fixed orders; the back-reference list has a distinct state for every order of weakening and removal.',
 [B+'spvm_api.c', B+'spvm_vm.c', 'lib/SPVM/Builder/include/spvm_implement.h', B+'spvm_precompile.c'],
 [st('weaken_backref_head', 'list of the weak references to an object', B+'spvm_api.c')],
 [me('weak flag in the pointer and the back-reference list', B+'spvm_api.c SPVM_API_weaken, SPVM_API_unweaken, SPVM_API_free_weaken_backrefs')],
 ['field values', 'isweak', 'DESTROY calls', 'count of memory blocks in use'],
 'exhaustive operation-sequence exploration against a reference heap model',
 note='Complete state space (including the order of weakening) of 4 holders of 2 targets up to the reported cap, plus the heap exploration of M01 with weak references; every transition is replayed on the real runtime (ASan), interpreted and precompiled.')

prop('M06', 'Exceptions reach exactly the innermost enclosing eval with exact state',
 'A thrown exception (die with any class, a failed runtime check, an exception from a called method) stops execution at that point, destroys the locals of every scope it leaves, and resumes after the innermost eval block that encloses it in the running method, else in the caller. There $@ is the message followed by one trace line per method passed, and eval_error_id the thrown class. Entering an eval clears both; destructors run meanwhile, and what they throw, change neither.',
 ['programs'], 'every nesting of eval blocks, calls, loops, destructors and throws',
 'Tests throw in a few fixed nestings; the jump target of each throw is computed by the compiler from the whole nesting around it.',
 [B+'spvm_opcode_builder.c', B+'spvm_vm.c', B+'spvm_api.c', B+'spvm_precompile.c'],
 [st('exception variable', 'message of the pending or last exception, per stack', B+'spvm_api.c'), st('eval_error_id', 'class of the last caught exception, per method call', B+'spvm_vm.c')],
 [me('each operation that can throw is followed by a jump to the end of its eval block or method', B+'spvm_opcode_builder.c SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception'), me('the exception is saved around DESTROY', B+'spvm_api.c SPVM_API_assign_object')],
 ['order of executed statements', '$@ with its stack trace', 'eval_error_id', 'DESTROY calls'],
 'bounded exhaustive exploration of programs against a reference interpreter',
 note='Every program of a bounded grammar of exception contexts (23906 in quick) is run on the real compiler and VM, a subset also precompiled in quick and all in thorough, and every observation including line numbers is compared with a reference interpreter.')

prop('M08', 'Numeric operators compute the C result for every operand type',
 'Arithmetic, bitwise, shift, comparison, logical, unary, increment and compound assignment operators on any pair of numeric types convert their operands to the documented common type and give the value C gives (integers wrap, % takes the sign of the divisor), for values in any kind of place, with the documented precedence, associativity and left to right evaluation; integer division or modulo by 0 throws and no operand values kill the process.',
 ['inputs', 'programs'], 'all operators, operand types, boundary values and operator combinations',
 'Tests check each operator on a few values of equal types; conversions, boundary values and precedence multiply.',
 [B+'spvm_check.c', B+'spvm_opcode_builder.c', 'lib/SPVM/Builder/include/spvm_implement.h', B+'spvm_yacc.c', B+'spvm_precompile.c'],
 [st('typed variables', 'operand slots of each width', B+'spvm_vm.c')],
 [me('operand conversion', B+'spvm_check.c'), me('evaluation', 'lib/SPVM/Builder/include/spvm_implement.h')],
 ['result values', 'result type', 'order of evaluation', 'exceptions'],
 'exhaustive enumeration of operator applications against a reference model',
 note='Every operator on every pair of types over 10 to 20 boundary values per type, 6 kinds of places, every pair and a set of triples of operators; interpreted and precompiled. Operations C leaves undefined (out-of-range float to integer, oversized shifts) are not evaluated.')

prop('M12', 'String operators give the documented bytes and never alias or unlock',
 'Strings are byte sequences of any content, NUL included: comparison, concatenation (with numbers, byte arrays and strings in either place, and assigned), interpolation, length, copy and character access give the documented bytes at every length; a string made by an operator is new and not read-only; reading, writing and locking through one reference is seen through every other reference to the same string and by nothing else; an operator whose operand is undef throws and changes nothing.',
 ['inputs', 'histories'], 'every sequence of string operations over shared, mutable and read-only strings, and every operator on every pair of strings',
 'Tests compare a few ordinary words; embedded NUL, bytes above 127, prefixes, long strings, self concatenation and aliasing of a string kept in several places need the exact operands or history.',
 [B+'spvm_api.c', B+'spvm_vm.c', B+'spvm_precompile.c', 'lib/SPVM/Builder/include/spvm_implement.h'],
 [st('place', 'the string a variable, mutable variable, field, element or class variable holds', B+'spvm_string.h'), st('string', 'bytes, length, read-only flag', B+'spvm_string.h')],
 [me('string operators', 'lib/SPVM/Builder/include/spvm_implement.h SPVM_IMPLEMENT_STRING_*, SPVM_IMPLEMENT_CONCAT'), me('storage', B+'spvm_api.c SPVM_API_new_string_nolen_raw, SPVM_API_concat')],
 ['bytes, length and lock of every place after every operation', 'comparison results', 'exceptions', 'memory left'],
 'exhaustive exploration of a string model with every transition replayed on the implementation',
 note='36 operations on 6 places, all sequences of length 2 (3 in thorough), then breadth first by model state to depth 5 (8); 7 comparisons in 5 forms and 11 concatenations on all pairs of 56 strings of length 0 to 301; interpreted and precompiled.')

prop('M13', 'Control flow executes exactly the structured-program semantics',
 'Statements run in the order the language defines: if/elsif/else/unless choose one branch, while/for/foreach repeat, switch enters the matching case only, next, last, break and return jump to the documented place of the innermost construct, and leaving any scope by any of these ways releases exactly the locals declared in it so far, before the next statement runs.',
 ['programs'], 'every nesting and sequence of control constructs with every jump in every position',
 'Tests use one or two constructs at a time; jump patching and scope exit depend on everything around a jump.',
 [B+'spvm_opcode_builder.c', B+'spvm_check.c', B+'spvm_vm.c', B+'spvm_precompile.c'],
 [st('jump stacks', 'pending jumps of loops, switches and evals while opcodes are built', B+'spvm_opcode_builder.c')],
 [me('jump patching at the end of each block', B+'spvm_opcode_builder.c'), me('LEAVE_SCOPE', B+'spvm_vm.c')],
 ['order of executed statements', 'DESTROY calls'],
 'bounded exhaustive exploration of programs against a reference interpreter',
 note='All nests to depth 3 of 14 constructs around 13 jumps with locals at every level, and pairs in sequence inside a third; interpreted, and precompiled to depth 2 in quick and all in thorough.')

prop('M03', 'Reference counts and weak links stay exact when threads share objects',
 'Threads that assign, copy, release, weaken and clear references to shared objects under any interleaving leave every object alive exactly while a strong reference exists: no reference count is lost or doubled, DESTROY runs once, no freed memory is used, no memory is lost and no lock stays held.',
 ['schedules'], 'every interleaving of two or three threads using shared objects, up to a preemption bound',
 'Tests start threads without control of the schedule; a lost update needs a switch between two particular instructions.',
 [B+'spvm_api.c', 'lib/SPVM/Builder/include/spvm_implement.h', B+'spvm_mutex.c', B+'spvm_vm.c'],
 [st('ref_count', 'number of strong references', B+'spvm_api.c'), st('object mutex', 'guards the count and the weak references of an object', B+'spvm_api.c'), st('weaken_backref_head', 'list of the weak references', B+'spvm_api.c')],
 [me('the object lock is held around every change of the count', B+'spvm_api.c SPVM_API_assign_object, SPVM_API_lock_object'), me('a reference is taken before the old one is released', B+'spvm_api.c')],
 ['reference counts afterwards', 'DESTROY calls', 'count of memory blocks', 'memory errors'],
 'stateless exploration of thread schedules of the real runtime under a controlled scheduler',
 note='All schedules of small threads up to 3 preemptions (5 in thorough) at lock operations and at accesses to memory that is not consistently locked; sequential consistency. One known finding: an object returned by a method while another thread drops the last other reference.')

prop('M04', 'Monitors and mutexes exclude exactly what they promise',
 'The lock operations of Sync::Mutex and of the native object lock exclude each other as documented: one holder of a writer lock and no reader beside it, any number of readers together, every unlock lets a waiter go on, and no correct program of lock and unlock operations deadlocks or sees a torn update.',
 ['schedules'], 'every interleaving of two or three threads using the lock operations, up to a preemption bound',
 'Tests with threads see the few schedules the machine produces; mutual exclusion is a statement about all of them.',
 [L+'Sync/Mutex.spvm', L+'Sync/Mutex.c', B+'spvm_mutex.c', B+'spvm_api_mutex.c'],
 [st('the platform lock', 'reader and writer state', B+'spvm_mutex.c')],
 [me('lock, unlock, reader_lock, reader_unlock', B+'spvm_mutex.c')],
 ['order of critical sections', 'final values', 'deadlock'],
 'stateless exploration of thread schedules of the real runtime under a controlled scheduler',
 note='All schedules up to 3 preemptions (5 in thorough); the platform lock is replaced by a model of it in the scheduler.')

prop('M05', 'A failed compilation leaves no trace in the compiler',
 'A compilation that fails, at whatever stage, reports its errors and leaves the compiler and the running program as they were: every later compilation gives the result, error messages, classes, fields, methods and code it would give without the failed one, also about classes compiled earlier, and compiled classes go on working.',
 ['histories'], 'every sequence of succeeding and failing compilations on one compiler',
 'Tests compile one failing class on a fresh compiler; what a failure leaves behind shows in what is compiled next.',
 [B+'spvm_compiler.c', B+'spvm_toke.c', B+'spvm_check.c', B+'spvm_op.c', B+'spvm_class_file.c'],
 [st('basic types, constant strings and class files of the compiler', 'grow in a compilation and shrink when it fails', B+'spvm_compiler.c'), st('tokenizer state', 'position in the class file', B+'spvm_toke.c')],
 [me('rollback of the symbol tables', B+'spvm_compiler.c SPVM_COMPILER_compile_common')],
 ['error id and messages', 'all types, fields, methods and opcodes of the runtime', 'values returned by the compiled classes', 'memory errors'],
 'exhaustive exploration of compilation sequences against the same sequences without their failures',
 note='The tree of all sequences of compilations (all pairs of 69 in quick, triples of 26; all triples and quadruples in thorough), every node a fork of the real compiler with a live runtime, ASan build.')

prop('M30', 'Compilations by several threads are serialised without harm',
 'Threads that compile classes on one compiler at the same time, or run while another compiles, each get the result they would get alone: every class is compiled once and works, failures fail only their own compilation, no lock stays held and no freed memory is used.',
 ['schedules'], 'every interleaving of two or three threads that compile or run, up to a preemption bound',
 'Tests compile in one thread; races between compilations need a particular schedule.',
 [B+'spvm_compiler.c', B+'spvm_runtime.c', B+'spvm_mutex.c', B+'spvm_api_runtime.c'],
 [st('the compiler', 'types, constants and class files', B+'spvm_compiler.c'), st('the runtime', 'rebuilt after each compilation', B+'spvm_compiler.c SPVM_COMPILER_build_runtime')],
 [me('the compile lock', B+'spvm_compiler.c SPVM_COMPILER_compile_common')],
 ['result of each compilation', 'values returned by the classes', 'locks held at the end', 'memory errors'],
 'stateless exploration of thread schedules of the real compiler under a controlled scheduler',
 note='9 scenarios of two or three threads, all schedules up to 1 preemption (2 or 3 where they fit 20000 schedules; thorough up to 5 within 1.5 million) at lock operations and at accesses to memory that is not consistently locked; sequential consistency.')

prop('M09', 'Every conversion gives the documented value in every place',
 'Casts and implicit conversions between numeric types, strings, byte arrays, numeric objects and any object give the value the documentation derives from C (truncation and wrap of integers, rounding of floats, the decimal text of a number, strtoll and strtod with saturation for a string), also when chained. A conversion of undef gives 0 or undef or throws as documented, unboxing an object of another type throws, and the result never shares storage with the source nor makes a read-only string writable.',
 ['inputs', 'programs'], 'every chain of up to three conversions from every type, for boundary values, and every implicit conversion in every kind of place',
 'Tests convert one or two ordinary values per pair; wrong widths, saturation limits, roundings and undef paths need the exact pair and value, and each place (argument, field, element, return) generates its own code.',
 [B+'spvm_check.c', B+'spvm_opcode_builder.c', B+'spvm_vm.c', B+'spvm_precompile.c', 'lib/SPVM/Builder/include/spvm_implement.h'],
 [st('value', 'static type, runtime type and content', 'lib/SPVM/Builder/include/spvm_implement.h')],
 [me('conversion operations', 'lib/SPVM/Builder/include/spvm_implement.h SPVM_IMPLEMENT_TYPE_CONVERSION_*'), me('implicit conversions', B+'spvm_check.c SPVM_CHECK_check_assign')],
 ['value and type of the result', 'exception', 'memory left'],
 'exhaustive enumeration of conversion chains against a reference model',
 note='16 types; all chains of 1 and 2 casts interpreted and precompiled, of 3 interpreted (both in thorough), as one expression and through variables, over 10 to 66 boundary values per type; all implicit conversions in 17 kinds of places. Results C leaves undefined (float out of range to integer) are not judged.')

prop('M11', 'Out-of-range, undef and negative-length operands throw and change nothing',
 'Every operation on an element, character, field, array length, method or new array works on exactly the addressed place when the operand is defined and the index in range, and otherwise throws and changes nothing: for every element and field type, index type and value, way of reading or writing, kind of invocant, and length. New arrays and strings have the requested length, zero content and type.',
 ['inputs', 'programs'], 'every access form on every state of its operand',
 'Each type has its own opcode with its own checks in two engines; a missing or wrong check of one of them is met only by that type with that operand state and otherwise reads or corrupts foreign memory silently.',
 [B+'spvm_opcode_builder.c', B+'spvm_vm.c', B+'spvm_precompile.c', 'lib/SPVM/Builder/include/spvm_implement.h', B+'spvm_api.c'],
 [st('array', 'length and elements', B+'spvm_api.c'), st('object', 'fields', B+'spvm_api.c')],
 [me('element access', 'lib/SPVM/Builder/include/spvm_implement.h GET_ARRAY_ELEMENT / SET_ARRAY_ELEMENT'), me('field access', 'lib/SPVM/Builder/include/spvm_implement.h GET_FIELD / SET_FIELD'), me('creation', B+'spvm_api.c')],
 ['values read', 'exception', 'content of every element and field afterwards', 'memory errors'],
 'exhaustive enumeration of access forms and operand states against a reference model',
 note='22 element types, arrays of length 0, 2, 3 (1 in thorough) and undef, 12 to 15 indexes from INT_MIN to INT_MAX in up to 6 index expressions, 5 to 20 access forms each; 10 field types with 7 kinds of invocants; 17 types with 9 lengths (14 in thorough). Interpreted and precompiled, ASan build.')

prop('M10', 'The type rules hold for every pair of types, at compile time and at run time',
 'An assignment, argument, return value, element, field or initialiser is accepted exactly when the documentation makes its type assignable to the place, and else rejected with a message; a cast is accepted exactly for the documented pairs. At run time isa, casts and element stores decide by the actual type of the object, so that no sequence of accepted operations lets a variable, field or element of a type hold an object its type does not allow: a cast or store that does not fit throws and changes nothing.',
 ['types', 'programs'], 'every pair of types in every kind of place, and every runtime type under every cast, isa and element store',
 'Tests check a few pairs that do work; the rules are a table over all pairs of basic types, dimensions and qualifiers.',
 [B+'spvm_type.c', B+'spvm_check.c', B+'spvm_api.c', B+'spvm_opcode_builder.c', B+'spvm_runtime.c', B+'spvm_precompile.c'],
 [st('types', 'basic type, dimension and flag', B+'spvm_type.c'), st('type of an object', 'runtime basic type and dimension', B+'spvm_api.c')],
 [me('assignability and cast tables', B+'spvm_type.c'), me('isa', B+'spvm_api.c SPVM_API_isa'), me('element type check', B+'spvm_api.c SPVM_API_elem_isa')],
 ['accepted or rejected', 'result of isa', 'exception or value of a cast or store', 'type of what is held'],
 'exhaustive enumeration of type pairs against a reference type system',
 note='About 70 types: every pair in 7 kinds of places, every pair of signatures for an interface, every runtime object under every cast, isa and array store, ASan build, interpreted and precompiled. Pairs on which documentation and code harmlessly differ are not judged; arguments of interface methods are covariant by design.')

prop('M14', 'The list classes behave as plain sequences under every operation history',
 'ByteList, ShortList, IntList, LongList, FloatList, DoubleList, StringList and List hold a sequence of elements: push, pop, shift, unshift, insert, remove, replace, set, get, resize, reserve, to_array and the constructors give exactly the sequence the documentation describes whatever came before, elements a list grows by are zero or undef, references to removed elements are released, an operation with an index or length out of range throws and changes nothing, and an immutable list or a returned array never aliases the list.',
 ['histories'], 'every sequence of list operations with every index, on every element type, interpreted and precompiled',
 'Tests apply each operation once to a small list; capacity growth, the ring buffer of List and stale elements behind the end depend on the history.',
 [L+'ByteList.spvm', L+'ShortList.spvm', L+'IntList.spvm', L+'LongList.spvm', L+'FloatList.spvm', L+'DoubleList.spvm', L+'StringList.spvm', L+'List.spvm', L+'Immutable/DoubleList.spvm'],
 [st('elements, length, capacity', 'the array behind the list and the part in use', L+'IntList.spvm'), st('offset', 'start of the ring buffer', L+'List.spvm')],
 [me('growth and moves', L+'List.spvm insert, remove, replace, _extend'), me('range checks', L+'IntList.spvm replace, remove')],
 ['length, elements and array of the list after every operation', 'returned values', 'exceptions', 'objects left alive'],
 'exhaustive exploration of a sequence model with every transition replayed on the implementation',
 note='About 40 operations per class, all sequences to a depth and breadth first over model states (contents, capacity, offset); each transition replayed on the real classes built with ASan.')

prop('M15', 'Hash behaves as a dictionary under every operation history',
 'A Hash maps keys, byte strings of any content, to values of any object type or to numbers: set, get, exists, delete, delete_or_default, weaken, unweaken, isweak, copy, clone, keys, values, to_array and the typed getters give what a plain dictionary gives after any history, collisions and rehashing included; a deleted or replaced value is released at once, a weakened value does not keep its object alive and stays weakened when the table grows.',
 ['histories'], 'every sequence of hash operations over colliding and growing key sets',
 'Tests set a handful of keys; chains, deletion in the middle of a chain and rehashing with weakened values need particular keys in a particular order.',
 [L+'Hash.spvm', L+'Hash/Entry.spvm'],
 [st('entries', 'chains of entries by hash value', L+'Hash.spvm'), st('count and capacity', 'number of keys and size of the table', L+'Hash.spvm')],
 [me('insertion, deletion and rehash', L+'Hash.spvm _set_to_container, delete, _rehash')],
 ['keys, values and existence of every key after every operation', 'DESTROY calls', 'exceptions', 'memory left'],
 'exhaustive exploration of a dictionary model with every transition replayed on the implementation',
 note='Operations on 7 keys (empty, NUL, high bytes, prefixes) with values, weak values and numbers; all sequences to a depth, breadth first beyond; tables filled key by key through several rehashes in every state; every typed getter on every kind of value.')

prop('M16', 'StringBuffer behaves as a byte sequence under every operation history',
 'A StringBuffer holds a sequence of bytes: push, push_char, replace, set, set_length, reserve, to_string, clone, cmp and eq give exactly the bytes a plain string gives after any history, and an offset or length out of range throws and changes nothing.',
 ['histories'], 'every sequence of buffer operations with every offset and length',
 'Tests push a few words; growth, replacement by longer and shorter text and boundary offsets depend on the history.',
 [L+'StringBuffer.spvm'],
 [st('string, length, capacity', 'the buffer and the part in use', L+'StringBuffer.spvm')],
 [me('growth and replacement', L+'StringBuffer.spvm _maybe_extend, replace')],
 ['bytes and length after every operation', 'results of comparison', 'exceptions'],
 'exhaustive exploration of a sequence model with every transition replayed on the implementation',
 note='All sequences to a depth and breadth first over model states (bytes, capacity), interpreted and precompiled, ASan build.')

prop('M17', 'Array utilities and sorting touch exactly the stated range',
 'The methods of Array, Sort and the array methods of Fn copy, move, fill, compare, repeat, create and sort exactly the given range of the given array, overlap included; sorting is a stable permutation in the order of the comparator for every input; a range which is not inside the array, however large its numbers, throws and changes nothing.',
 ['inputs'], 'every short array with every offset and length, boundary numbers included, for every element type',
 'Tests use one inner range per method; off-by-one and overflow of offset plus length show only at particular numbers, sort faults only at particular permutations.',
 [L+'Array.spvm', L+'Array.c', L+'Sort.spvm', L+'Fn.spvm'],
 [st('array', 'elements of each type', L+'Array.spvm')],
 [me('range checks', L+'Array.c, '+L+'Array.spvm'), me('merge sort', L+'Sort.spvm')],
 ['every element after the call', 'returned arrays', 'exceptions', 'memory errors'],
 'exhaustive enumeration of calls against a reference model',
 note='All offsets and lengths from -2 to length+2 and the extreme ints on arrays of up to 4 elements of 8 types; all arrays of up to 6 elements over 3 values for sorting with stability checked on tagged objects; ASan build, interpreted and precompiled.')

prop('M18', 'The string, UTF-8 and memory functions of Fn are exact on every input',
 'The functions of Fn (character classes, case, trim, split, join, index, rindex, contains, substr, tr, chompr, repeat, reverse, UTF-8 conversion and indexing, code points, memory copy and comparison, byte order, numeric parsing and others) give the documented value for every byte string, offset and length, treat malformed UTF-8 as documented, and throw on arguments outside their range without reading or writing outside of their operands.',
 ['inputs'], 'every short string over a telling alphabet, malformed UTF-8 included, with every offset and length',
 'Tests pass well-formed words and inner offsets; errors sit at empty strings, truncated sequences, boundary code points, the end of the operand and overflowing numbers.',
 [L+'Fn.spvm', L+'Fn.c'],
 [st('operands', 'byte strings and arrays with offsets and lengths', L+'Fn.spvm')],
 [me('UTF-8 decoding', L+'Fn.c SPVM__Fn__get_code_point'), me('range checks', L+'Fn.spvm, '+L+'Fn.c')],
 ['returned values', 'operands after the call', 'exceptions', 'memory errors'],
 'exhaustive enumeration of calls against a reference model',
 note='About 900000 calls; all strings to length 3 to 5 over alphabets chosen per function, all boundary code points and all truncations and corruptions of their encodings; interpreted, a part precompiled; ASan build. Two documented behaviours that the repository tests contradict are listed findings.')

prop('M19', 'Formatting and packing follow their specifications for every template',
 'Format->sprintf gives the text its format describes for every specifier, flag, width, precision and value; Packer pack and unpack give the bytes and values their template describes for every specifier, count, byte order and value, unpack inverts pack, and a malformed template, a missing or wrong argument or too short data throws without touching memory outside its operands.',
 ['inputs'], 'every short format string and template and every specifier with every option over boundary values',
 'Tests format a few values; combinations of flags and width, extreme values, arrays in a byte order and truncated templates multiply.',
 [L+'Format.spvm', L+'Format.c', L+'Packer.spvm', L+'Packer/Specifier.spvm'],
 [st('parsed specifier', 'flags, width, precision, count, byte order', L+'Packer/Specifier.spvm')],
 [me('parsing', L+'Packer.spvm, '+L+'Format.spvm'), me('conversion', L+'Format.c, '+L+'Packer.spvm')],
 ['bytes of the result', 'unpacked values', 'exceptions', 'memory errors'],
 'exhaustive enumeration of calls against a reference model',
 note='About 130000 calls: every format string of a bounded alphabet, every specifier with every flag, width and precision over boundary values, every template of up to 2 specifiers with every count; ASan build.')

prop('M07', 'Precompiled methods behave exactly like interpreted ones',
 'A method compiled to machine code with the precompile attribute gives, for every statement the language accepts and for every state of its operands, the same values, side effects, runtime types, exceptions and error ids as the interpreted method, and neither leaks nor accesses memory it does not own.',
 ['inputs'], 'every operator and statement on every combination of operand types, with ordinary and with undef, empty, zero and negative operands',
 'Tests run chosen programs in both modes; the translation to C has its own code for every opcode and operand type, and its faults need one operator on one type in one state.',
 [B+'spvm_precompile.c', B+'spvm_vm.c', L+'Builder/include/spvm_implement.h'],
 [st('operand state', 'values of locals, fields, class variables, arrays and references before the statement', B+'spvm_vm.c'), st('exception', 'variable and error id', B+'spvm_api.c')],
 [me('interpreter', B+'spvm_vm.c SPVM_VM_call_method'), me('translation', B+'spvm_precompile.c SPVM_PRECOMPILE_build_method_source')],
 ['all variables and reachable objects after the statement', 'exception text', 'live memory blocks', 'memory errors'],
 'exhaustive enumeration of bounded programs run by both engines and compared',
 note='About 40000 accepted statements (every operator on every operand type, every pair of types for each binary operator, postfix forms, statement forms), each in 2 environments and run twice in a row per engine; ASan build. Statements that print to the terminal or replace the invocant are left out.')

prop('M25', 'Method calls run the right method with exactly the arguments given',
 'A call runs the method that the class hierarchy, the invocant and the form of the call (instance, static, SUPER, class-qualified, interface, anonymous) designate, every parameter has the value of its argument or its declared default whatever the types of the others, the result and the caller variables are unaffected by the call, args_width and can are right, and a call with the wrong number or kind of arguments is refused by the compiler.',
 ['inputs'], 'every hierarchy, static type and runtime class; every list of argument types; interpreted and precompiled callers and callees',
 'Tests call a few signatures; offsets of wide arguments, defaults after them, skipped levels of a hierarchy and mixed engines combine.',
 [B+'spvm_check.c', B+'spvm_opcode_builder.c', B+'spvm_api.c', B+'spvm_vm.c', B+'spvm_precompile.c'],
 [st('class hierarchy', 'which class defines the method', B+'spvm_runtime.c'), st('argument stack', 'arguments of the call', B+'spvm_vm.c')],
 [me('method search', B+'spvm_api.c'), me('argument passing', B+'spvm_opcode_builder.c')],
 ['method that runs', 'parameter values', 'return value', 'acceptance by the compiler'],
 'exhaustive enumeration of bounded programs against a reference model',
 note='All hierarchies of 4 classes with the method absent, defined or calling SUPER, with neighbouring names, every static and runtime class and call form; all pairs and triples of 6 (14 in thorough) argument types with up to 2 optional ones, lists up to 255 wide; 4 combinations of interpreted and precompiled caller and callee; about 3000 sources for acceptance.')

prop('M26', 'Every variable, field and element is a separate place of its own type',
 'Fields (also inherited ones, seen through any class of the hierarchy), class variables, local variables in nested and following scopes, array elements and the fields of multi-numeric values start as zero or undef, hold exactly what was stored last whatever is stored in the others, and are reached by generated accessors just as directly.',
 ['inputs', 'sequences'], 'every list of types up to a bound, every order of stores to it',
 'Tests store into chosen layouts; offsets and register numbers depend on the order, size and number of all neighbours and on the cut into super classes.',
 [B+'spvm_check.c', B+'spvm_opcode_builder.c', B+'spvm_vm.c', B+'spvm_precompile.c', B+'spvm_api.c'],
 [st('field layout', 'offset of every field', B+'spvm_check.c SPVM_CHECK_check_field_offset'), st('registers', 'index of every local variable by kind', B+'spvm_opcode_builder.c')],
 [me('layout', B+'spvm_check.c'), me('register allocation', B+'spvm_opcode_builder.c')],
 ['value of every place after every store', 'memory errors'],
 'exhaustive enumeration of bounded programs against a reference model',
 note='All sequences of up to 3 fields of 8 types with every cut into inherited classes and longer lists to 40 (64), all sequences of up to 3 class variables, all pairs of 14 local types in scopes and triples of 6, all array element types, multi-numeric types of 6 element types with 1 to 255 fields; interpreted and precompiled; ASan build.')

prop('M31', 'Access control holds for every member, form of use and class',
 'A public member is usable from every class, a private one only from the class that defines it, its anonymous methods and the classes it allows, a protected one also from the classes that inherit it, with the documented default for each kind of member, in every form of use and through objects of any inheriting class; everything else is refused by the compiler.',
 ['inputs'], 'every kind of member, attribute, using class and form of use',
 'Tests try a few pairs of classes; the answer depends on the defining class, the class of the invocant, anonymous methods and allow declarations together.',
 [B+'spvm_check.c', B+'spvm_op.c'],
 [st('members', 'attribute and defining class', B+'spvm_check.c'), st('using class', 'inheritance and allow relation to the defining class', B+'spvm_op.c')],
 [me('access check', B+'spvm_check.c SPVM_CHECK_can_access'), me('allow', B+'spvm_op.c SPVM_OP_is_allowed')],
 ['acceptance by the compiler'],
 'exhaustive enumeration of bounded source texts against a reference model',
 note='About 5000 cases: 7 kinds of members, 4 attributes, 11 classes in every relation to the defining class, directly and in an anonymous method, through the class and its children, every form of use; the unrestricted forms (arrays, casts, generated accessors) too.')

prop('M29', 'Literals and separators mean exactly what the documentation says',
 'Every integer, floating point, character, string, single-quoted and here document literal, in every notation, with every escape and interpolated variable, has the documented type and value wherever it stands, also directly next to operators, or is refused when it is malformed or out of range; white space, comments, POD and directives between tokens change nothing but the line numbers that __LINE__ and exceptions report.',
 ['inputs'], 'every literal of the grammar, every place of a separator',
 'Tests use a handful of literals in tidy programs; a wrong digit group, escape, sign or a token swallowed next to an operator silently gives another program.',
 [B+'spvm_toke.c', B+'spvm_op.c', B+'spvm_check.c', B+'spvm_constant.c'],
 [st('current token', 'position, line and column in the source', B+'spvm_toke.c')],
 [me('number literals', B+'spvm_toke.c SPVM_yylex'), me('string interpolation', B+'spvm_toke.c SPVM_yylex, SPVM_TOKE_load_module_file')],
 ['acceptance', 'types and values of literals', 'trace of programs', 'line numbers'],
 'exhaustive enumeration of bounded literals and separator placements, compiled and run on the real implementation against a value oracle',
 note='Integer digit strings to length 3 and all limits in the four bases with underscores, signs and suffixes; floats from products of integer, fraction, exponent and suffix parts; every escape; all pairs and many triples of 40 pieces of a string literal; each of 11 separators and none in each gap of a program with every kind of statement. Where the documentation leaves a case open (a minus directly before a digit after an operand, escapes 8 and 9) nothing is demanded.')
prop('M23', 'The native API reads, writes, calls and releases as the language does',
 'For every object, class variable, field, array, string and method a native method can name, the native API accepts exactly the types that the documentation lists, converts values as a cast does, finds and calls the method that the language would, reports every other case as an exception without changing anything, and a native scope releases what was made mortal in it exactly when that scope is left, with weak references cleared and exceptions and nested calls included.',
 ['inputs', 'histories'], 'every accessor on every kind of target; every query on every kind of value; every call form; every bounded history of scopes, mortal objects, references and weak references',
 'Tests use each accessor in the case in which it works; there is one copy of the code for each type and direction, and a release that is one scope early or late shows only in some order of operations.',
 [B+'spvm_api.c'],
 [st('native mortal stack', 'objects to release when a scope is left', B+'spvm_api.c'), st('fields and class variables', 'typed places reached by name', B+'spvm_api.c')],
 [me('get/set by name', B+'spvm_api.c'), me('enter_scope, leave_scope, push_mortal', B+'spvm_api.c')],
 ['values read and stored', 'exceptions', 'results of queries', 'live objects after each operation', 'memory'],
 'exhaustive enumeration of bounded native API calls and histories on the real implementation against a reference model',
 note='14 field and class variable types x 8 accessors x read and write; 70 kinds of values x 60 types for isa, is_type and elem_isa; 3 call forms x 5 classes x 7 methods x 7 invocants; about 20000 scope histories of up to 4 operations (5 in thorough) from 9 starting histories.')
prop('M24', 'A dynamic method call does what the same call written in the program does',
 'Native::MethodCall finds the class method, instance method, inherited method or method of a given class that the same call written in the program finds, accepts exactly the numbers of arguments and the argument values that the parameters take (number objects for numbers, arrays for multi-numeric values and references), delivers each argument to its parameter and each change through a reference back to its array, fills the optional parameters, returns the result (or undef) as an object of the return type, and reports every other case and every exception as an exception and in the error id, with no object kept after the call.',
 ['inputs', 'histories'], 'every parameter type with every kind of value; every list of up to three parameters; every return type; every call form, target and number of arguments; repeated and nested calls',
 'Arguments are copied by one hand-written case per type and width; tests call a few methods that work with one list of parameters each.',
 ['lib/SPVM/Native/MethodCall.c', B+'spvm_api.c'],
 [st('stack of the called method', 'values and references at positions that depend on the widths before them', 'lib/SPVM/Native/MethodCall.c')],
 [me('new_class_method, new_instance_method, new_instance_method_static, call, call_*, new_proto', 'lib/SPVM/Native/MethodCall.c')],
 ['values received', 'values returned', 'exceptions and error ids', 'memory'],
 'exhaustive enumeration of bounded calls on the real implementation against the declared types',
 note='74 parameter types x 70 values; all lists of one and two and a third of the lists of three (thorough: all) of 14 types with up to 2 optional; all return types; about 200 call forms; interpreted, a sample also compiled to machine code.')

prop('M27', 'INIT runs once per class, after those of its parent and used classes',
 'When a program starts, the INIT blocks of every loaded class run exactly once and in the order in which they are written, after the INIT method of the parent class and those of the classes in its use statements in the order of these statements, whatever the graph of parents and uses is (cycles included) and whichever class was loaded first; a class without INIT blocks passes the order on, values set by INIT are there for every later use, and calling INIT again does nothing.',
 ['inputs', 'histories'], 'every graph of use and extends statements, every order of the use statements, every class loaded first, every number of INIT blocks',
 'Tests have one class with a few INIT blocks; a class that is initialised too late, twice or never needs several classes that load one another.',
 [B+'spvm_check.c', B+'spvm_api.c', B+'spvm_compiler.c'],
 [st('initialized', 'whether INIT of a class was called', B+'spvm_api.c')],
 [me('call_init_methods', B+'spvm_api.c'), me('calls of INIT put into INIT methods', B+'spvm_check.c')],
 ['order of INIT blocks', 'class variables', 'calls of INIT'],
 'exhaustive enumeration of bounded class graphs on the real implementation against a reference model of the order',
 note='2307 graphs of up to 3 classes (thorough: all of 3 and a part of 4) with a root each; the order in which unrelated classes start is not documented, so every order of starting classes is accepted.')

prop('M20', 'Calls from Perl convert every value as documented and lose nothing',
 'A call from Perl passes every argument converted to its parameter type whatever the other parameters are, refuses a value that cannot be converted with a Perl exception, writes references back only when the method returns, gives the result as the Perl value or object of the right class, reports exceptions and error ids, and leaves the values of the caller, the stack and the memory of SPVM in order; objects shared by Perl and SPVM are destroyed exactly when the last reference on either side goes away; array objects give and take their elements by index within their bounds and by type.',
 ['inputs', 'histories'], 'every argument value, signature and element access; every history of sharing objects between Perl and SPVM',
 'Tests call some methods with some values; the conversion code is written out for each type in each position, and a fault there needs one type, one value or one argument order.',
 ['SPVM.xs', L+'ExchangeAPI.pm', L+'BlessedObject/Array.pm', L+'BlessedObject/String.pm', L+'BlessedObject/Class.pm', L+'BlessedObject.pm'],
 [st('argument stack', 'values of the arguments at their offsets', 'SPVM.xs _xs_call_method'), st('shared objects', 'references held by Perl variables, fields and class variables', 'SPVM.xs SPVM_XS_UTIL_new_sv_blessed_object')],
 [me('call', 'SPVM.xs _xs_call_method'), me('constructors', 'SPVM.xs SPVM_XS_UTIL_new_*'), me('elements', 'SPVM.xs _xs_get, _xs_set, _xs_to_elems')],
 ['result of the call and its Perl type', 'references after the call', 'exceptions', 'live memory blocks', 'destruction order', 'memory errors'],
 'exhaustive enumeration of bounded calls and histories on the real extension library, compared with a reference model of the conversions and of the reference counts',
 note='SPVM.so is built from the tree with AddressSanitizer. About 60 numeric values in every position of every numeric type; every object value for every parameter type, element type and setter; all signatures to length 3 over 15 parameter types, each with one argument too many and too few; all histories of 5 operations (6 in thorough) out of 16 that share objects.')

prop('M21', 'A build runs the code of the current sources, whatever was built before',
 'After any history of edits of classes, native sources, headers, config files, resources and options, of deletions in the build directory, and of builds that failed or were stopped, running a program, or generating and running an executable file, uses the current sources, headers, configs and inlined values of other classes; sources that do not compile never run as their old version; and a run after which nothing changed compiles and links nothing.',
 ['histories', 'crash points'], 'every history of edits, deletions, failed and stopped builds, and builds',
 'Tests build each project from scratch once; a missing dependency or a wrong comparison in the build cache shows only when a certain file changes after a build.',
 [L+'Builder/CC.pm', L+'Builder/Exe.pm', L+'Builder/Util.pm', L+'Builder.pm', L+'Builder/Config.pm', L+'Builder/Config/Exe.pm', 'script/spvmcc'],
 [st('build directory', 'objects, generated sources and libraries of earlier builds', L+'Builder/CC.pm compile_class'), st('times', 'modification times that decide what is up to date', L+'Builder/Util.pm need_generate')],
 [me('need_generate', L+'Builder/Util.pm need_generate'), me('input files', L+'Builder/CC.pm compile_class, link'), me('forced build', L+'Builder/Exe.pm create_bootstrap_source')],
 ['output of the program', 'end of the build', 'files compiled by a build without changes'],
 'exhaustive enumeration of bounded build histories with crash injection on the real builder, compared with a model of what the current sources print',
 note='One project with a native class (headers, nested header, source files, config that loads another config, a resource used in a mode with a base config), a precompiled class that uses constants, enumerations, fields and defaults of other classes, run from Perl and as an executable file with modes, arguments, global flags and optimisation. All pairs of about 45 operations after the first build (triples in thorough), and the build stopped or failed before and after each call of the compiler. Files are given logical modification times.')

prop('M22', 'The compiler terminates and stays memory safe on every source text',
 'Compiling any text as a class ends, with success or with at least one error message, and never crashes, stops at an assertion, hangs, or reads or writes memory the compiler does not own; this holds for each text also after any others were compiled on the same compiler.',
 ['inputs'], 'every source text',
 'Tests compile a fixed set of correct and incorrect classes; the tokenizer, parser and checker meet every combination of tokens, operand types and truncations users type.',
 [B+'spvm_toke.c', B+'spvm_yacc.c', B+'spvm_op.c', B+'spvm_check.c', B+'spvm_opcode_builder.c', B+'spvm_compiler.c'],
 [st('tokenizer state', 'position in the text, open string literal', B+'spvm_toke.c'), st('syntax tree', 'ops of the class being compiled', B+'spvm_op.c')],
 [me('tokenizer', B+'spvm_toke.c SPVM_yylex'), me('syntax checks', B+'spvm_check.c')],
 ['end of the compilation', 'error messages', 'memory errors'],
 'exhaustive enumeration of bounded source texts on the real compiler',
 note='All token sequences to length 2 over 130 tokens and 3 over 36 (130 in thorough) in a method, similar in a class; all characters sequences to length 3 in each kind of literal; every truncation of a program; every operator on every pair of operand types in many positions; whole class files with every multi-numeric name and field list of a bounded set, signatures that do not fit and more fields than allowed; names and nesting up to large sizes. ASan build, a limit of 10 seconds per text.')
