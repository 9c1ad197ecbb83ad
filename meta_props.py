T_DFS = "model checking: stateless depth-first enumeration of every program/operation sequence of a bounded alphabet, run on the real compiler and VM against a reference model"
DC = ["default", "compact"]; DCSR = ["default", "compact", "slices", "really"]

prop("P01", "Operators equal their C-like meaning wherever their operands live",
 "For every arithmetic, bitwise, comparison, logical, unary, increment and compound-assignment operator, the value a script computes equals the C-like meaning on 32-bit wrapping integers and 32-bit floats (division and modulus by zero give 0), for every combination of operand kinds: literal, global, local, parameter, array element, hash entry, struct member, call result. Concatenating strings with + and += yields the concatenated text, and precedence and associativity follow C. Every spelling of a literal has its C-like value (a character literal is the byte a string holds). Evaluating an operator never changes an operand it does not assign to.",
 ["programs", "inputs", "configurations"], "all operators x operand storage classes x value pairs x syntactic positions x expression trees up to the bound, in every build configuration",
 "The suite samples a few operand pairs per operator; the implementation has several hundred fused instructions and type-pair functions, each reached only by one operand-kind combination in one syntactic position.",
 [D+"cc/expression.cpp", D+"cc/optimizer.cpp", D+"cc/cc.cpp", D+"vm/operations.cpp", D+"vm/operations_compact.cpp", D+"vm/operations_non_compact.cpp", D+"vm/vm.cpp"],
 [("operand shuffling and fused instruction selection", D+"cc/expression.cpp, "+D+"cc/optimizer.cpp pushOpcode"), ("type-pair dispatch tables", D+"vm/operations*.cpp"), ("fused load/compare/branch opcodes", D+"vm/vm.cpp")],
 "exploration", T_DFS, "Exhaustive within the stated operator/class/value/position grid; values are boundary representatives, not all 2^64 pairs.",
 "one evaluation = one generated script (up to ~400 operator applications over every in-domain value pair), enumerated over operator x left class x right class x position; distinct_nontrivial = distinct observed output strings",
 DC, DCSR, observe=["values passed to a host callback"],
 bounds="16 binary operators, compound forms, unary/++/--, 17 operand classes, 19 positions, 20 boundary values squared, all 3-operator expression trees, every literal spelling, string concatenation grid",
 assumptions=["shift counts outside 0..31, bitwise operators on floats, and results outside int range of float->int casts are outside the property's domain"])
prop("P02", "Control flow visits exactly the statements a C-like reading prescribes",
 "For every composition of if/else, while, do-while, for, foreach, switch, break, continue, goto, return and conditions of any operand kind, the sequence of statements executed is the one a C-like reading prescribes, whatever the size of the code between a jump and its target. A program whose jump does not fit is rejected by the compiler rather than run wrongly.",
 ["programs", "inputs", "configurations"], "all nestings of control statements up to the bound, all jump distances across encoding boundaries, all case-label sets and selector values of the alphabet",
 "Tests cover a handful of loop and switch shapes at a single code size; branch encodings (8/16 bit, fused compare-and-branch, linear and hashed switch tables) change with distance and operand kind.",
 [D+"cc/cc.cpp", D+"cc/optimizer.cpp", D+"cc/link.cpp", D+"vm/vm.cpp"],
 [("relative jump resolution and narrowing", D+"cc/cc.cpp resolveRelativeJumps"), ("switch table construction", D+"cc/cc.cpp parseSwitch"), ("compare-and-branch fusion", D+"cc/optimizer.cpp"), ("goto patching", D+"cc/link.cpp")],
 "exploration", T_DFS, "Exhaustive over statement nestings to depth 3, every jump distance in the windows around each encoding limit, and the switch alphabet.",
 "one evaluation = one generated program whose visit log is compared with the log of a reference interpreter; enumerated over nesting shapes, condition kinds, body sizes and switch label sets; distinct_nontrivial = distinct logs",
 DC, DCSR, observe=["visit log"],
 bounds="nesting depth 3, all condition operators x operand classes, branch distances swept byte by byte around 127/128 and (thorough) 32K, switches with up to 5 labels of int/char/string/enum kinds")
prop("P03", "Functions, scope, recursion and structs keep every binding separate",
 "Each call binds parameters by position (missing arguments read 0, extra ones are dropped), starts with every uninitialised local reading 0, and leaves the caller's locals, temporaries and globals unchanged except for explicit assignments; recursion to any depth the stack allows behaves the same. Struct instances start from their declared member initialisers and constructor arguments and are independent of each other. Programs with more parameters, locals, globals, functions or code than the bytecode format can express are rejected by the compiler, never run wrongly.",
 ["programs", "inputs", "configurations"], "all parameter/argument count pairs, argument kinds, local counts, shadowing patterns, recursive expression shapes, member initialiser patterns up to the bound",
 "Tests call a few functions with matching arguments; dirty stack contents, mismatched counts, mixed scopes and size limits are only reached by enumeration.",
 [D+"cc/cc.cpp", D+"cc/link.cpp", D+"vm/vm.cpp"],
 [("frame construction and argument rectification", D+"vm/vm.cpp callFunction"), ("name resolution", D+"cc/cc.cpp"), ("struct hash map and instantiation", D+"cc/link.cpp createLocalHashMap, "+D+"vm/vm.cpp wr_newObjectTable"), ("size limits", D+"cc/link.cpp link")],
 "exploration", T_DFS, "Exhaustive within the stated counts and shapes.",
 "one evaluation = one generated program compared with a reference evaluation; distinct_nontrivial = distinct outputs",
 DC, DCSR, observe=["values passed to a host callback"],
 bounds="0..5 params x 0..5 args x 11 argument kinds x positions; local/param/global/function/member counts 1..300; all scope-operation sequences of length 3 (4 thorough); 10 recursive forms x 9 contexts x depth 12")
prop("P04", "Containers behave as the sequences and maps they model",
 "After any sequence of array, list, queue, stack and hash-table operations (indexing, growth by assignment, push/pop/peek, insert/remove/truncate/clear, add/exists/remove, counting, iteration), the contents, counts and returned items are those of an abstract sequence or map, wherever the container is stored and whatever is stored in it; assigning a container shares it; storing a plain value (as an item, a key or a literal's element) copies it, and the variables of a foreach hold the visited key and value, so later changes on either side do not reach the other. Operations with out-of-range positions or wrong argument kinds leave unaffected elements intact and the container usable.",
 ["histories", "inputs", "configurations"], "all operation sequences up to the bound from all initial sizes, all colliding-key patterns and table sizes, all storage places and value kinds of the alphabet",
 "Tests exercise each library call once or twice in one fixed order; probe chains, growth, removal followed by re-insertion and aliasing need specific histories.",
 [D+"vm/gc_object.cpp", D+"vm/index.cpp", D+"vm/operations.cpp", D+"vm/vm.cpp", D+"lib/std_container.cpp", D+"utils/utils.cpp"],
 [("open-addressed hash table with growth", D+"vm/gc_object.cpp getIndexOfHit, growHash, exists"), ("array growth on index", D+"vm/operations.cpp wr_growValueArray, "+D+"vm/index.cpp"), ("container library", D+"lib/std_container.cpp")],
 "model_checking", "model checking: exhaustive enumeration of operation sequences of an abstract container model, every trace replayed on the real VM and compared after each step",
 "Exhaustive for sequences of 3-4 operations over the alphabet from every initial state listed; every model trace is replayed on the implementation.",
 "one evaluation = one operation sequence executed on the implementation with the container rendered after every step; states = distinct abstract container states visited; transitions = operations executed",
 DC, DCSR, observe=["container contents rendered after each operation", "values returned by the library calls"],
 bounds="29 array operations, sequences of length 3 (4 thorough) x 4 initial sizes, 6 storage places, 8 value kinds; 7 hash operations x 4-6 colliding keys, length 3, x 20 prefilled tables; growth to 300 keys x 14 strides; sharing histories of length 4 (5); 29 index values around every encoding width x 3 spellings x 8 uses; 16 ways to store x 11 sources x 7 later changes; 17 loop bodies")
AS = ["default+asan", "compact+asan"]; AST = ["default+asan", "compact+asan", "slices+asan", "really+asan"]
prop("P05", "Garbage collection is invisible and reclaims garbage, whenever it runs",
 "Whatever the collection threshold, and at whichever allocation a collection happens to run, a script computes the same results as when no collection ever runs: no value still reachable from a variable, a container, a pending expression, a call in progress, an iteration or a suspended yield is ever reclaimed or altered, and no reclaimed memory is read or written. Unreachable values are reclaimed, so memory use of a loop does not grow with the number of rounds.",
 ["schedules", "programs", "configurations"], "all collection schedules (every subset of collection points, or every single point/suffix/pair for longer programs) of all operation sequences of the alphabet",
 "Tests run with the default threshold, so collections happen at a few arbitrary places; a missing root only shows when a collection hits one particular instruction of one particular expression.",
 [D+"vm/gc.cpp", D+"vm/gc_object.cpp", D+"vm/vm.cpp", D+"vm/operations.cpp", D+"vm/index.cpp", D+"lib/std_container.cpp", D+"lib/std_string.cpp", D+"lib/std_serialize.cpp"],
 [("mark and sweep", D+"vm/gc.cpp"), ("collection points in the interpreter", D+"vm/vm.cpp"), ("rooting of library arguments and results", D+"lib/*.cpp")],
 "model_checking", "model checking: the allocator acts as controlled scheduler of the collector; every collection schedule of the bound is executed on the real VM and compared with the collection-free execution, memory errors detected by AddressSanitizer",
 "Exhaustive over schedules for single operations (all single points and suffixes; all subsets/pairs in the thorough tier) and over operation pairs (triples thorough) with collection at every point.",
 "one evaluation = one program explored under all its schedules; transitions = schedule decisions executed; states = distinct (output, live memory) pairs",
 AS, AST, observe=["values passed to a host callback", "live memory", "AddressSanitizer reports"],
 bounds="56 operations, 5x5 initial value kinds, 3 storage modes; schedules: always, every suffix, every single point, every pair or subset (thorough)")
T_API = "model checking: stateless depth-first enumeration of every host API history up to the bound, executed on the real library under a ledger allocator and AddressSanitizer"
prop("P06", "Every block of memory is returned, exactly once, for every API history",
 "For every sequence of host operations (creating states, running scripts that finish, fail or yield, handing over ownership of bytecode, importing, calling, continuing, creating values and containers, instantiating structs, serializing, running commands that do not compile, destroying contexts in any order), destroying a context returns everything that context allocated or owns, destroying the state returns everything else, no block is freed twice, and no freed block is used.",
 ["histories", "fault_sequences", "configurations"], "all sequences of up to 3 (4) operations from a 39 operation alphabet, 5 (6) from the context alphabet, times three destruction orders",
 "Tests destroy one state at the end of a fixed history; leaks and double frees hide in combinations such as importing into a yielded context whose script then fails.",
 [D+"utils/utils.cpp", D+"vm/gc.cpp", D+"vm/gc_object.cpp", D+"vm/vm.cpp", D+"utils/serializer.cpp", D+"lib/std_sys.cpp", D+"lib/std_msg.cpp", D+"cc/cc.cpp", D+"cc/link.cpp", D+"debug/disassemble.cpp"],
 [("context creation, import and destruction", D+"utils/utils.cpp"), ("collection of everything on destroy", D+"vm/gc.cpp"), ("ownership of bytecode blocks", D+"utils/utils.cpp wr_createContext")],
 "model_checking", T_API, "Exhaustive within the stated history length; the ledger counts blocks, AddressSanitizer decides use after free.",
 "one evaluation = one history with one destruction order; transitions = API operations executed; states = distinct (blocks held, contexts alive) situations",
 AS, AS, observe=["allocator ledger", "AddressSanitizer reports"], bounds="histories: 3 (4) operations of 39; deep: 6 starts x 4 (5) operations of 17; 3 destruction orders")
MF = ["mfail+asan", "cmfail+asan"]
prop("P07", "Running out of memory ends a script gracefully at any allocation",
 "In a build with WRENCH_HANDLE_MALLOC_FAIL, whichever allocation made while creating a context or running a script fails (once, or together with all later ones), the run ends with WR_ERR_malloc_failed: no crash, no invalid memory access, no leak, nothing computed after the failing instruction becomes visible, and the state afterwards runs further scripts normally.",
 ["fault_sequences", "programs", "configurations"], "every single allocation and every suffix of allocations of every program (one and two operations) of the alphabet",
 "Memory exhaustion is never exercised by the tests; each unchecked allocation is a crash that shows only when exactly that allocation fails.",
 [D+"vm/gc.cpp", D+"vm/gc_object.cpp", D+"vm/vm.cpp", D+"vm/operations.cpp", D+"vm/index.cpp", D+"utils/utils.cpp", D+"utils/serializer.cpp", D+"lib/std_string.cpp", D+"lib/std_container.cpp", D+"lib/std_serialize.cpp", D+"lib/std_msg.cpp"],
 [("failure flag checked after every instruction", D+"vm/vm.cpp MALLOC_FAIL_CHECK"), ("object allocation", D+"vm/gc.cpp getSVA"), ("table growth", D+"vm/gc_object.cpp growHash")],
 "fault_enumeration", "model checking: exhaustive fault injection, every allocation index (single and suffix) of every program of a bounded alphabet on the real VM, AddressSanitizer and a block ledger as monitors",
 "Exhaustive over failure points for every program in the bound; the compiler itself is outside the guarantee (it has no failure path).",
 "one evaluation = one program with all its failure points; transitions = executions with one injected failure; states = distinct (output, error) results",
 MF, MF, observe=["wr_getLastError", "output before the failure", "allocator ledger"], bounds="45 operations x 4 initial values x 2 storage kinds; all pairs (thorough: with every setting); recall on a surviving context after the failure")
SL = ["slices+asan", "cslices+asan"]
prop("P08", "Time slicing is invisible to scripts and can always preempt",
 "With WRENCH_TIME_SLICES, for every slice length, every set of preemption points (wr_setInstructionsPerSlice changed between slices) and wr_forceYield called during any host call, a script that is resumed with wr_continue after each forced yield produces exactly the output, yields and final state of an unsliced run, also when other contexts of the same state run between the slices; a forced yield reports no arguments and no return value; every loop construct that never ends is nevertheless interrupted at the end of each slice.",
 ["schedules", "programs", "configurations"], "all schedules of forced yields with at most two preemptions, all uniform slice lengths and all alternations of two contexts, over every program of the alphabet",
 "A preemption point that loses an operand, an iterator or a frame shows only when the slice ends exactly there; the tests use one slice length on one program.",
 [D+"vm/vm.cpp", D+"utils/utils.cpp", D+"vm/gc.cpp"], [("forced yield", D+"vm/vm.cpp CHECK_FORCE_YIELD / doYield"), ("resumption", D+"vm/vm.cpp yieldContinue"), ("yield information", D+"utils/utils.cpp wr_getYieldInfo")],
 "model_checking", "model checking: stateless exploration of the real VM under a controlled scheduler, every preemption schedule up to two preemptions plus all uniform slices and all bounded alternations of two contexts; the unsliced run is the oracle",
 "Exhaustive within the preemption bound for every program of the alphabet. wr_forceYield is called from host functions, not from a second thread.",
 "one evaluation = one program with all its schedules; transitions = slices executed; states = distinct (result, schedule)",
 SL, SL, observe=["script output", "wr_getYieldInfo", "wr_slicesUsedLastCall", "allocator ledger"], bounds="30 fragments, single and pairs, at top level and in a function; up to 40 (120) preemption points; two contexts alternating over 4 (6) chosen slice lengths; 42 conditions x 6 loops x 4 bodies x 3 slice lengths for preemption")
prop("P09", "Yield hands values across exactly, and contexts never disturb each other",
 "yield(args...) at any point of a script (nested in expressions, arguments, loops, recursion, constructors, or in a function called by the host) gives the host exactly its arguments, and when continued evaluates to the value the host stored (0 by default), with every local, global and half-evaluated expression intact: the script behaves exactly as if it had called a native function returning that value. wr_continue returns null while the script yields again and its return value when it ends; continuing a context that is not yielded is refused. Contexts sharing a state behave, for every interleaving of run, continue, call, destroy and global access, as if each were alone.",
 ["schedules", "histories", "programs"], "every placement of yield in the fragment alphabet with every sequence of host values; all interleavings of host operations on up to three contexts up to the bound",
 "Resumption restores a frame saved mid-instruction and the collector is shared between contexts; each placement and interleaving is a different path.",
 [D+"vm/vm.cpp", D+"utils/utils.cpp", D+"vm/gc.cpp"], [("save/restore", D+"vm/vm.cpp Yield / yieldContinue"), ("host side", D+"utils/utils.cpp wr_getYieldInfo, wr_continue"), ("shared state", D+"utils/utils.cpp wr_destroyContext")],
 "model_checking", "model checking: exhaustive enumeration of yield placements and host values against the same program calling a native function, and of all interleavings of host operations against the projection on each context run alone; AddressSanitizer and an allocation ledger as monitors",
 "Exhaustive within the fragment alphabet and history length. Yield inside an imported function is an error by design and excluded.",
 "one evaluation = one program with one sequence of host values, or one history; transitions = resumptions / host operations; states = distinct observations",
 AS, AS, observe=["script output", "yield arguments", "return values", "wr_getLastError", "allocator ledger"], bounds="32 contexts x 21 yielding expressions x 3 call modes x 20 value sequences x 2 collection settings, plus pairs (sampled grid in quick, all in thorough); histories of up to 5 (6) operations on 3 contexts of 4 scripts")
prop("P10", "The scheduler runs every task fairly, once per tick, to its end",
 "For every history of WrenchScheduler calls: addThread starts the script for one slice and returns -1 if it faulted, 0 if it completed and otherwise a fresh positive id; each tick(n) resumes every live task exactly once for at most n branches (or up to its yield) exactly where it stopped; a finished or faulted task leaves the scheduler (its memory is returned) without disturbing the others; lastErr/lastErrTaskId name a task that faulted until clearErr; removeTask removes exactly the given live task; destroying the scheduler returns everything.",
 ["schedules", "histories", "programs"], "all histories of addThread/tick/removeTask/clearErr up to the bound over eight scripts (terminating, endless, yielding, faulting early and late, allocating, overflowing)",
 "Unlinking during iteration, faults and removal in the middle of the list interact; the tests run one history.",
 [D+"vm/scheduler.cpp", D+"vm/vm.cpp", D+"utils/utils.cpp"], [("round robin", D+"vm/scheduler.cpp tick"), ("start", D+"vm/scheduler.cpp addThread"), ("removal", D+"vm/scheduler.cpp removeTask")],
 "model_checking", "model checking: explicit enumeration of every call history up to the bound, executed in lock step on the real scheduler and on a coroutine model whose traces are taken from the scripts running alone one branch at a time",
 "Exhaustive within the history length. The order of tasks inside one tick is left open.",
 "one evaluation = one history; transitions = scheduler calls; states = distinct (task positions, last error)",
 SL, SL, observe=["script output per call", "return values", "lastErr", "allocator ledger"], bounds="histories of up to 5 (6) calls of 15 kinds")
prop("P11", "Stack protection stops every overflow, for every stack size",
 "With WRENCH_PROTECT_STACK_FROM_OVERFLOW, for every stack size (of at least two entries) and every script, a run either behaves exactly as with an ample stack or ends with WR_ERR_stack_overflow after a prefix of its output; memory outside the stack is never touched (also through imported functions, constructors, library calls, yields, slices and host calls with arguments); a size that suffices keeps sufficing when enlarged; and the state stays usable afterwards.",
 ["configurations", "programs", "histories"], "every stack size from 2 to six beyond the first that suffices, for every program of the alphabet",
 "Each instruction that pushes without checking is an overflow for exactly one stack size; tests use sizes that fit.",
 [D+"vm/vm.cpp", D+"utils/utils.cpp", D+"vm/operations.cpp"], [("check", D+"vm/vm.cpp CHECK_STACK"), ("frames", D+"vm/vm.cpp callFunction"), ("imports", D+"vm/vm.cpp CallFunctionByHash")],
 "model_checking", "model checking: exhaustive exploration of the resource bound: every stack size for every program of a bounded alphabet on the real VM, AddressSanitizer as monitor, the run with an ample stack as oracle",
 "Exhaustive over sizes for each program; programs are bounded by the alphabet and nesting depth.",
 "one evaluation = one program with all stack sizes; transitions = executions; states = distinct (output, error, size)",
 SL, SL, observe=["script output", "wr_getLastError", "AddressSanitizer reports"], bounds="71 fragments single (with host calls) and pairs, in both scopes; expressions nested to depth 3 (7) of 16 x 16 contexts and 15 leaves; 61 kinds of operand pushed up to 12 (24) times over")
prop("P12", "A script means the same in every configuration",
 "For every script, the observable behaviour (output, errors) is the same whether the library is built plain, WRENCH_COMPACT, WRENCH_REALLY_COMPACT, with time slices and stack protection, with unaligned reads, or from the amalgamated source, and whatever compile flags were used (globals, debug code, embedded source, non-strict variables); compiling is deterministic and yields the same bytecode in every build, so compiled code is portable between them.",
 ["configurations", "programs"], "all programs of the alphabet in every build configuration and with every combination of compile flags listed",
 "The compact builds replace most instruction implementations; the tests run a fixed set of scripts per build.",
 [D+"vm/vm.cpp", D+"vm/operations.cpp", D+"vm/index.cpp", D+"cc/link.cpp", "src/wrench.cpp"], [("compact instructions", D+"vm/vm.cpp WRENCH_COMPACT"), ("really compact tables", D+"vm/operations.cpp WRENCH_REALLY_COMPACT"), ("debug code", D+"cc/cc.cpp m_addDebugSymbols")],
 "model_checking", "model checking: exhaustive enumeration of bounded programs, executed in six builds and under six sets of compile flags; every execution is compared between flags, and per-execution outcomes between builds",
 "Exhaustive within the alphabet. Comparison is relative: behaviour that is wrong in the same way everywhere is for the other properties.",
 "one evaluation = one program with six sets of compile flags; states = distinct outputs",
 ["default", "compact", "really", "slices", "unaligned", "default+amal"], ["default", "compact", "really", "slices", "cslices", "unaligned", "default+amal", "compact+amal", "really+amal"], cross=True, observe=["script output", "wr_getLastError", "bytecode"], bounds="94 fragments and pairs (1/5 of them in quick, all in thorough) in both scopes; 18 operators x 9 x 9 operand kinds x 9 (81) value pairs x 2 scopes; 15 assignments x 5 targets x 9 operand kinds x 81 value pairs x 2 scopes; sources padded to sizes around 255 and 64K bytes, long and numerous names")
prop("P13", "Damaged bytecode is refused at every door",
 "Every way of handing bytecode to the library (wr_isBytecodeValid, wr_run, wr_newContext, wr_import, sys::importByteCode in a script, WrenchScheduler::addThread, wr_disassemble) accepts what wr_compile produced and refuses every block that differs from it by truncation at either end, an added byte, a changed byte, two inverted bits or an exchange of neighbouring bytes: the refusal is WR_ERR_bad_bytecode_CRC, nothing of the block is executed, nothing outside it is read, no memory is leaked (a block whose ownership was handed over is freed) and the contexts that already exist keep working.",
 ["inputs", "fault_sequences", "configurations"], "every truncation, one-byte change, one-byte extension, exchange of neighbours and two-bit error of a corpus of programs compiled with five sets of flags, at eleven entry points",
 "Bytecode comes from files, flash and networks; tests load only intact blocks.",
 [D+"utils/utils.cpp", D+"lib/std_sys.cpp", D+"vm/scheduler.cpp", D+"debug/disassemble.cpp", D+"cc/link.cpp"], [("check value", D+"utils/utils.cpp wr_createContext / wr_isBytecodeValid"), ("refusal with ownership", D+"utils/utils.cpp wr_rejectBlock"), ("import", D+"lib/std_sys.cpp wr_importByteCode")],
 "fault_enumeration", "model checking: exhaustive enumeration of a fault model (all truncations, byte errors, bit pairs, insertions, transpositions) on real bytecode through every entry point, AddressSanitizer and an allocation ledger as monitors",
 "Exhaustive for the fault model on each block of the corpus. Bytecode forged with a correct check value is outside the guarantee.",
 "one evaluation = one program and flag set with one class of damage; transitions = damaged blocks offered; states = distinct damaged blocks",
 ["default+asan", "slices+asan"], ["default+asan", "slices+asan", "compact+asan", "unaligned+asan"], observe=["wr_getLastError", "returned context", "allocator ledger", "AddressSanitizer reports"], bounds="8 programs x 5 flag sets; quick changes every byte of 3 flag sets to every value (all entry points for bit flips), thorough all")
prop("P15", "Serialization round-trips every value and survives every buffer",
 "Every value built of ints, floats, strings, arrays and hash tables, nested at will and however it was built (also hash tables with a history of insertions and removals), is reproduced exactly by deserialize(serialize(v)): same contents, same _count, every key found, independent of the original, usable like any other container, in the same context, another context or another state; values that cannot be represented (structs, containers that contain themselves, more than 65535 elements) are refused, never cut short. The decoder accepts no strict prefix of an encoding, and for every damaged or arbitrary buffer it either refuses (leaving 0) or produces a well-formed value, without touching memory outside the buffer, leaking or hanging.",
 ["inputs", "histories", "configurations"], "all value trees up to depth 2, all hash histories up to the bound, every truncation and byte change of a corpus of encodings, all byte strings up to length 7 (8) over the alphabet of the format",
 "Encodings come from storage and peers; the tests round-trip a few values and never offer a damaged buffer.",
 [D+"utils/serializer.cpp", D+"utils/serializer.h", D+"lib/std_serialize.cpp", D+"vm/gc_object.cpp"], [("encoding", D+"utils/serializer.cpp wr_serializeEx"), ("decoding", D+"utils/serializer.cpp wr_deserializeEx"), ("script functions", D+"lib/std_serialize.cpp")],
 "model_checking", "model checking: exhaustive enumeration of bounded value trees, container histories (against an abstract map) and fault-injected buffers on the real encoder and decoder, AddressSanitizer and an allocation ledger as monitors; encodings are compared between builds",
 "Exhaustive within depth, history length and fault model.",
 "one evaluation = one value, history or damaged buffer position; transitions = encodings and decodings; states = distinct values or buffers",
 ["default+asan", "compact+asan"], ["default+asan", "compact+asan", "unaligned+asan", "cslices+asan"], cross=True, observe=["wr_serialize", "wr_deserialize", "script output", "allocator ledger", "AddressSanitizer reports"], bounds="trees of depth 2 with up to 3 children of 10 leaves; histories of 4 (5) + 2 operations of 9; 8 encodings; 13 sizes around 2^8, 2^15, 2^16, 2^17")
prop("P16", "Host and script exchange values, calls and containers faithfully",
 "For every history of host operations: a script function called by name, hash or pointer receives exactly the given arguments (missing ones 0, extra ones ignored) and its result is handed back; a missing function, global, container value or struct is reported as such and leaves no trace; a registered callback receives its arguments in order and its own user pointer and its result reaches the script; library functions and constants have the registered value; globals read and written through wr_getGlobalRef are the script's own; a container, raw array or value shared with the script is seen and changed by both sides alike, what the script puts into it stays alive as long as the script can reach it, and destroying it returns all memory; struct instances made by the host are constructed like new and live until the context ends. Converting any kind of value (asInt, asFloat, asString, asMallocString, technicalAsString, array, iterators, indexing) gives its value and stays inside the buffer for every buffer size.",
 ["histories", "inputs", "configurations"], "all histories of length 3 (4) over 27 host operations and over 23 container operations, all calls with up to 4 arguments of 8 kinds in 4 ways, 12 ways of passing 33 values to a callback with every buffer size",
 "Interop is what an embedded language is for; tests call a few functions once and never vary buffer sizes or histories.",
 [D+"utils/utils.cpp", D+"vm/vm.cpp", D+"vm/gc.cpp", D+"vm/operations.cpp", D+"vm/gc_object.cpp"], [("calls", D+"utils/utils.cpp wr_callFunction"), ("conversions", D+"utils/utils.cpp WRValue::asString"), ("containers", D+"utils/utils.cpp wr_addToContainerEx"), ("globals", D+"utils/utils.cpp wr_getGlobalRef"), ("structs", D+"utils/utils.cpp wr_instanceStruct")],
 "model_checking", "model checking: exhaustive enumeration of bounded host-operation histories on the real library in lock step with an abstract model (maps and values), all observable state compared after every step; AddressSanitizer and an allocation ledger as monitors",
 "Exhaustive within depth. Host values that the script cannot reach are not kept alive by the collector, so histories do not rely on that.",
 "one evaluation = one history or call; transitions = host operations; states = distinct model states",
 ["default+asan", "compact+asan"], ["default+asan", "compact+asan", "unaligned+asan", "cslices+asan"], observe=["return values", "wr_getLastError", "globals", "struct members", "callback arguments", "allocator ledger", "AddressSanitizer reports"], bounds="histories of length 3 (4); collections at every opportunity or by default")
prop("P17", "Imported modules behave like one program with separate globals",
 "A program split into modules that are imported by the host (into the main context or into one another) or by the script itself behaves exactly as the same program in one piece whose modules have global variables with names of their own: functions call across modules in every direction and recursively, values of every kind (strings, arrays, hash tables, struct instances) passed to, returned from and kept by other modules stay valid and shared for as long as any module can reach them, whichever module allocates or collects, globals of one module are never seen or changed by another, host calls into any module give the same results, and destroying the main context returns all memory.",
 ["histories", "schedules", "configurations"], "all histories of length 3 (4) over 32 operations in three ways of importing with two collection policies",
 "When a value is collected depends on which module allocates how much after it crossed a boundary; tests pass a few values and never collect in between.",
 [D+"vm/vm.cpp", D+"vm/gc.cpp", D+"utils/utils.cpp", D+"lib/std_sys.cpp"], [("calls between modules", D+"vm/vm.cpp CallFunctionByHash"), ("collection", D+"vm/gc.cpp WRContext::gc"), ("import", D+"utils/utils.cpp wr_import"), ("import from a script", D+"lib/std_sys.cpp")],
 "model_checking", "model checking: exhaustive enumeration of bounded call histories between real modules, each compared with the same history of the one-piece program (refinement against a monolithic reference on the real VM); AddressSanitizer and an allocation ledger as monitors",
 "Exhaustive within depth. The reference is the library itself without imports, whose behaviour the other properties check.",
 "one evaluation = one history (run in modules and in one piece); transitions = operations; states = distinct outputs",
 ["default+asan", "compact+asan"], ["default+asan", "compact+asan", "cslices+asan"], observe=["script output", "wr_getLastError", "allocator ledger", "AddressSanitizer reports"], bounds="three modules with equal global names; histories of length 3 (4)")
prop("P18", "The standard library computes what its documentation says for every argument",
 "For every argument, the str, math, std, msg and sys functions give the documented result: formatting as C defines it for the supported conversions, flags and widths (whatever the destination held before, also when destination, format and arguments share a string, and without changing any other variable), slicing, trimming, inserting, searching, case and number conversion over every string (also empty and with embedded zeros), the math functions of two arguments in the documented order, std::rand within its inclusive range and determined by its seed, messages as a map shared by the contexts of a state that never disturbs the functions registered there, sys::halt stopping the script at once with the given error. Malformed formats and arguments of the wrong type, number or sign cause no invalid access and do not stop the script. Numbers turn into text that reads back as the same number (floats to five decimals).",
 ["inputs", "histories", "configurations"], "all strings up to length 5 (6) over 8 characters, all conversions x flags x widths x values, all format strings up to length 4 (5), all message histories up to length 4 (5), all float exponents",
 "The tests call most of these functions once or never; alias, boundary and malformed arguments are not sampled.",
 [D+"lib/std_string.cpp", D+"lib/std_math.cpp", D+"lib/std.cpp", D+"lib/std_msg.cpp", D+"lib/std_sys.cpp"], [("formatting", D+"lib/std_string.cpp wr_sprintfEx, wr_doSprintf"), ("strings", D+"lib/std_string.cpp"), ("math", D+"lib/std_math.cpp"), ("random numbers and number text", D+"lib/std.cpp"), ("messages", D+"lib/std_msg.cpp"), ("halt", D+"lib/std_sys.cpp")],
 "model_checking", "model checking: exhaustive enumeration of bounded arguments and operation histories through the real compiler, VM and library, each compared with a reference model written from the documentation (C library for the C-like functions, an abstract map for messages); AddressSanitizer and an allocation ledger as monitors",
 "Exhaustive within the alphabets. Negative lengths and positions, wrong types and malformed formats are only checked for safety.",
 "one evaluation = one argument tuple or history; transitions = script runs or calls; states = distinct scripts",
 ["fsprintf+asan", "compact+asan"], ["default+asan", "fsprintf+asan", "compact+asan", "unaligned+asan", "cslices+asan"], observe=["script output", "return values of host calls", "error codes", "allocator ledger", "AddressSanitizer reports"], bounds="11 conversions x 6 flag sets x 7 widths x 13 values; 81 two-part formats x 7 destinations x 4 aliasings; 20 + 4 + 1 math functions over 16 values; 14 ranges x 7 seeds x 300 draws")
prop("P19", "File and console input/output behaves like the file system it wraps",
 "For every history of io:: operations (writeFile, readFile, deleteFile, open with every documented flag and mode, read, write, seek, fsync, close on several descriptors), each call returns and each file ends up exactly as the documented file semantics say: contents byte for byte (also empty, with zeros, of any size), a missing or unreadable file is reported and nothing else happens, no descriptor and no memory is left behind, and only the named file is touched. io::getline loses and invents no character whatever the line lengths; str::printf writes exactly what str::format returns. Arguments of the wrong kind or number never crash or stop the script.",
 ["histories", "inputs", "configurations"], "all operation sequences of length 3 over 30 (34) operations from 3 (4) starting states, all of length 4 (5) over 11 operations on one file; 12 sizes; 169 x 3 line pairs",
 "The tests touch no file; what is written is the user's data.",
 [D+"lib/std_io.cpp", D+"lib/std_string.cpp", D+"utils/utils.cpp"], [("files", D+"lib/std_io.cpp wr_read_file, wr_write_file, wr_delete_file"), ("descriptors", D+"lib/std_io.cpp wr_ioOpen .. wr_ioFSync"), ("console", D+"lib/std_io.cpp wr_getline, wr_stdout"), ("names", D+"utils/utils.cpp WRValue::asMallocString")],
 "model_checking", "model checking: exhaustive enumeration of bounded operation histories on the real library and a real scratch directory, in lock step with an abstract file system (names to contents, descriptors with position and flags); the open descriptors of the process, the allocation ledger and AddressSanitizer are monitors",
 "Exhaustive within depth. Device errors (disk full, I/O errors) are not injected.",
 "one evaluation = one history; transitions = script runs; states = distinct expected observations",
 ["default+asan"], ["default+asan", "compact+asan", "cslices+asan"], cross=True, observe=["script output", "files in the scratch directory", "open descriptors", "standard output", "allocator ledger", "AddressSanitizer reports"], bounds="2 descriptors, 2 file names, 3 contents")
prop("P20", "The TCP library moves bytes faithfully",
 "For every history of tcp::bind, connect, accept, send, receive, peek and close on any number of connections, what one end sends arrives at the other end of that connection only, complete, byte for byte and in order, whatever the bytes and amounts; tcp::send gives the number of bytes sent, tcp::receive gives at most the requested amount (8192 when none is given) of what waits and 0 at the end of the stream, tcp::peek gives the number of bytes waiting, tcp::connect reaches exactly the named address and port. Failures (port in use, nobody listening, unknown host, a peer that went away, something that is no socket, missing or senseless arguments) give -1 or 0 and nothing else: no crash, no signal, no stop of the script, no memory or descriptor left behind.",
 ["histories", "inputs", "configurations"], "all histories of length 4 (5) over up to 2 connections from 3 starting states; 1800 addresses; 6 sizes x 5 piece sizes; all combinations of 0 to 3 senseless arguments",
 "No test opens a socket; before the repairs tcp::send sent the socket number in place of the data.",
 [D+"lib/std_tcp.cpp"], [("streams", D+"lib/std_tcp.cpp wr_sendTCP, wr_receiveTCP, wr_peekTCP"), ("connections", D+"lib/std_tcp.cpp wr_bindTCPEx, wr_acceptTCP, wr_connectTCPEx, wr_closeTCP"), ("addresses", D+"lib/std_tcp.cpp isIp, ipFromAddress")],
 "model_checking", "model checking: exhaustive enumeration of bounded operation histories on the real library over the loopback device, in lock step with an abstract model (per connection two byte queues, open/closed ends); open descriptors, allocation ledger and AddressSanitizer are monitors",
 "Exhaustive within depth. Every call is made when it cannot block (the model knows what waits), so timing does not matter; time-outs, non-loopback networks and partial sends of a full socket buffer are outside the bound.",
 "one evaluation = one history; transitions = library calls; states = distinct contents of all queues",
 ["slices+asan"], ["slices+asan", "ctcp+asan"], cross=True, observe=["results of the tcp:: functions", "bytes waiting in the sockets", "peer addresses", "open descriptors", "allocator ledger", "AddressSanitizer reports"], bounds="2 connections, 5 contents, depth 4 (5)")
prop("P14", "The compiler survives every source and never emits broken code",
 "For every source text, wr_compile returns an error code (with a message when asked for one) or valid bytecode, never both; it reads nothing outside the text, leaks nothing, terminates, and gives the same answer every time. Whatever it accepts can be run on a protected stack without an invalid memory access or a leak. A program that outgrows a field of the bytecode (globals, locals, arguments, functions, members, cases, literals, jumps, code size) is either compiled correctly or refused.",
 ["inputs", "programs", "configurations"], "all token sequences up to length 4 (5) in six contexts, all byte strings up to length 3, every truncation, token edit and byte change of a corpus, and sizes around every field width",
 "Tests compile well-formed programs and a few hand-picked errors; the space of malformed sources is not sampled at all.",
 [D+"cc/cc.cpp", D+"cc/expression.cpp", D+"cc/token.cpp", D+"cc/link.cpp", D+"cc/optimizer.cpp", D+"vm/vm.cpp"], [("tokens", D+"cc/token.cpp getToken"), ("expressions", D+"cc/expression.cpp parseExpression"), ("statements", D+"cc/cc.cpp parseStatement"), ("linking", D+"cc/link.cpp link")],
 "model_checking", "model checking: exhaustive enumeration of bounded token sequences and of all single edits of a corpus through the real compiler and (in bounded slices) the real VM, AddressSanitizer and an allocation ledger as monitors",
 "Exhaustive within sequence length and edit distance 1 (2 for deletions). Nesting so deep that it exhausts the host stack is outside the bound.",
 "one evaluation = one source (or one edit position with all replacements); transitions = compilations and runs; states = distinct sources",
 ["slices+asan"], ["slices+asan", "cslices+asan"], observe=["wr_compile result", "error message", "bytecode validity", "allocator ledger", "AddressSanitizer reports"], bounds="60 tokens (24-40 in the longest sequences); 14 programs; 22 kinds of limits x 10 to 23 sizes x compile flags")
