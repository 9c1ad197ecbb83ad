# oracle and scenarios per property, used by meta.py to write the property part of DESIGN.md
ORACLE = {
"P01": ("a C reference (`checks/refval.h`: 32-bit wrapping ints, IEEE floats, C precedence) evaluated beside the script", "binary, compound, unary: operator x storage class of each operand x syntactic position, each program looping over all value pairs fed by the host; chains: all operator trees of the bound; literals around every power of two in every base; forms: every literal spelling (bases, signs, exponents, characters, escapes) in every operand place; strings: concatenation, equality, self reference"),
"P02": ("a structured reference interpreter over a small AST", "nesting: all statement nestings; conditions: every comparison x operand class as a condition; bare: unbraced bodies; sequence; offsets/huge/distant: code sizes that walk every branch across its encodings, one byte at a time; switches: ordered label sets x break patterns x default positions x selectors; caseBytes: string labels of every byte value"),
"P03": ("a reference evaluator of bindings", "params, locals, scope histories, recursion shapes, structs, arrays of structs; sizes/far: every count around the limits of the bytecode (right or refused)"),
"P04": ("abstract sequences and maps", "arrays/hashes: all operation sequences with rendering after each step; arrayEdges and badIndex: positions out of range; hashGrowth; wide: pairs of edits of any width in arrays of every size class; sharing; literals; declared/looked: declarations and bare element statements; indexes: every width of index in every spelling; stored: the source of a stored item or key changes afterwards; visited: foreach variables while the container changes"),
"P05": ("the same program without any collection", "schedules: each operation under every collection schedule; sequences, triples; pending: a half-evaluated operand while a call changes its container; loops: foreach variables while the loop changes or drops its container; stale: dead stack slots; reclaim: bounded memory; big: all table sizes"),
"P06": ("the block ledger of the allocator, AddressSanitizer", "histories and deep: all sequences of host API operations, three orders of destruction"),
"P07": ("the run without failure, the ledger, AddressSanitizer", "single/pairs: every allocation fails, once or from then on; recall: the context survives and is called again"),
"P08": ("the unsliced run", "single/pairs: all uniform slice lengths, all single and pairs of preemption points, forced yields from every host call; inter: all alternations of two contexts; endless: every kind of endless loop is preempted"),
"P09": ("the same program calling a native function instead of yielding; the projection on each context run alone", "transparent, isolation"),
"P10": ("a coroutine model whose traces come from the scripts running alone one branch at a time", "histories of addThread/tick/removeTask/clearErr"),
"P11": ("the run with an ample stack; AddressSanitizer (the stack is the last thing in its allocation)", "single, pairs, nest, pushes: every stack size for every program"),
"P12": ("the other builds and the other compile flags (digests compared by the driver)", "fragments, operators, assigns, bytecode; bulky: sources and names of every size around the 8- and 16-bit field widths under every flag set"),
"P13": ("acceptance of intact blocks only; ledger; AddressSanitizer on exact-size buffers", "good, truncated, extended, swapped, changed, twobits x eleven entry points; longer: blocks up to 60 KB"),
"P14": ("either an error or valid bytecode, ledger, AddressSanitizer on exact-size sources; whatever compiles is run in bounded slices on a protected stack; limits: exact expected result or refusal", "sequences of tokens, byte strings, truncations, one-token and one-byte edits of a corpus, pairs of edits, compile twice, limits"),
"P15": ("the original value (canonical rendering), an abstract map, digests between builds", "trees, histories, truncated/changed/changed2 buffers, all short byte strings over the alphabet of the format, sizes around the limits"),
"P16": ("an abstract model (maps and values) in lock step", "conv: 33 values x 12 ways x every buffer size; calls; callbacks; constants; hist; containers; globals; suspendedCtx"),
"P17": ("the same program in one piece with renamed globals", "modules: call histories over module graphs; suspended: host calls and further imports while the importer is suspended; shapes: parameters, arguments, locals, call form, direction and number of functions of a call across modules"),
"P18": ("references computed from the documentation (C's printf, strtol, math.h, abstract strings and maps)", "format*, strings, chars, tol, math, rnd, msgs, sys, number/text round trips"),
"P19": ("an abstract file system, operation by operation, on real files in a private scratch directory", "sequences, deep, contents, odd, modes, lines, print, raw"),
"P20": ("two byte queues per connection, in lock step with real loopback sockets", "ports, unusable, addresses, bulk, streams"),
}
COST = {"P01": 125, "P02": 107, "P03": 62, "P04": 85, "P05": 101, "P06": 16, "P07": 23, "P08": 24, "P09": 60, "P10": 40, "P11": 60, "P12": 90, "P13": 60, "P14": 80, "P15": 60, "P16": 100, "P17": 20, "P18": 120, "P19": 70, "P20": 30}
