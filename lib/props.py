"""The single source of properties.jsonl and of the property part of MANIFEST.json (see lib/gen.py)."""
CG = "grayc/src/codegen/codegen.c"
TC = "grayc/src/typechecker/typechecker.c"
RT = "grayc/src/runtime/runtime.c"
RH = "grayc/src/runtime/runtime.h"
SL = "grayc/src/stdlib/"
P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, hook=None):
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["stdout, stderr and exit code of the compiled program"],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               hook_needed=hook),
                  technique=technique, note=note))


p("C01", "Fixed-width integer arithmetic is exact or panics",
  "For every integer type up to 64 bits (int, uint, byte, i8..i64, u8..u64), + - * / % negation, ++/-- and the compound assignments either produce the mathematically exact value or stop the program with an overflow, division-by-zero or out-of-range panic; they never wrap or truncate silently. This holds whatever form the operand or target takes: local, constant, literal, struct field, array element, map value, pointer, parameter, loop variable or call result. Bitwise operations and shifts yield the operand type's exact bit pattern and out-of-range shift amounts panic.",
  ["inputs", "programs"], "every operand pair of every integer type, in every expression form that can carry it",
  "Tests try a few boundary values on local variables; the space is operand pairs x types x operators x target forms, and the checks are emitted at many separate code-generation sites.",
  [CG, RH, TC],
  [("checked arithmetic helpers (gray_add_check, gray_sized_*, gray_usized_*)", RH),
   ("selection of the checked form per operand type and per assignment target", CG + " emit_expression, emit_assign_statement")],
  "runtime monitoring: exact-integer oracle over executed operations, UBSan on the runtime",
  "Every executed operation is compared with Python integers; values are boundary-biased samples, operators, types and target forms are enumerated.")

p("C02", "128- and 256-bit integers compute exactly or panic",
  "For i128, u128, i256 and u256, arithmetic, comparison, bitwise operations, shifts, ++/--, compound assignment, parsing of literals and printing give the exact mathematical result, or stop with an overflow, division-by-zero or shift panic. Division truncates toward zero and remainder takes the dividend's sign, as for narrower types. Conversions to and from narrower types keep the value or panic.",
  ["inputs", "programs"], "every operand pair of the four wide types",
  "Tests sample small values and a few limits; limb carries, sign handling and quotient estimation only go wrong on particular bit patterns.",
  ["grayc/src/runtime/bigint.h", CG],
  [("multi-limb add/sub/mul/div with overflow detection", "grayc/src/runtime/bigint.h"),
   ("emission of wide-integer operations and literals", CG)],
  "runtime monitoring: exact-integer oracle over executed operations, UBSan",
  "Every executed operation is compared with Python integers; operands are limb-boundary-biased samples.")

p("C03", "Numeric conversions keep the value or panic",
  "cast and the implicit conversions between int, float, char, byte and all sized integer types produce the exact value (truncated toward zero from floats) or panic when it does not fit the target type; NaN and infinities never become integers. Array casts convert every element under the same rule. Casts to f32 round to nearest and casts to bool, string and enum forms follow the documented rule.",
  ["inputs"], "every (source type, target type, value)",
  "Tests convert a handful of values; the type-pair matrix times boundary values is never visited as a whole.",
  [CG, RH, SL + "builtins.h"],
  [("range-checked conversion emission", CG + " NODE_CAST"), ("checked narrowing helpers", RH)],
  "runtime monitoring: exact conversion oracle over the type-pair matrix, UBSan",
  "Type pairs are enumerated, values are boundary-biased samples.")

p("C04", "Programs and library calls never corrupt memory",
  "A program the compiler accepts and that does not use raw C interop performs no out-of-bounds, use-after-free, or uninitialised memory access and no undefined integer or pointer operation, for any argument passed to a standard library function, however large, negative, empty or malformed. Every such call either returns a defined value or stops with a panic, never with a signal.",
  ["inputs", "programs"], "every standard library function with every hostile argument of its parameter types",
  "Tests run without sanitizers and with well-formed arguments; memory errors that happen to be harmless pass silently.",
  [SL + "strings.c", SL + "bytes.c", SL + "arrays.c", SL + "regex.c", SL + "json.c", RT, "grayc/src/runtime/array.c"],
  [("bounds and size checks in each library function", SL), ("arena allocation with size checks", RT)],
  "runtime monitoring: ASan + UBSan with arena red-zone poisoning over hostile library calls",
  "Executed calls only; arena memory is poisoned beyond every allocation so that overruns inside a block are seen.",
  hook="GRAY_VERIF arena poisoning in " + RT)

p("C05", "A value that outlives its scope keeps its contents",
  "A value created inside a loop body, if/when branch or function and stored into an outer variable, field, element, map entry, pointer target, global or returned keeps exactly its contents after that scope ends, for every type: strings, arrays, maps, structs, tagged enums, wide integers, pointers and nestings of them. No reachable value ever refers to memory that has been reclaimed.",
  ["programs", "histories"], "every (value type, storage target, scope kind, nesting) combination",
  "Tests cover particular escapes; freed arena memory often still holds the old bytes, so a missed copy is invisible without poisoning.",
  [CG, RT],
  [("escape deep copies on stores out of a scope", CG + " emit_deep_copy/escape paths"), ("scope arenas", RT)],
  "runtime monitoring: reference values plus ASan arena poisoning over a generated escape matrix",
  "The matrix of types x targets x scopes is enumerated up to nesting 2; contents are compared and freed arena memory is poisoned.",
  hook="GRAY_VERIF arena poisoning in " + RT)

p("C06", "Scope-local memory is reclaimed when the scope ends",
  "Memory allocated by values local to a function call, loop iteration or branch is released when that scope ends by any exit (fall through, break, continue, return, or_return, ensure), so that peak memory of a program whose live data is bounded does not grow with the number of calls or iterations. Returning or discarding a value releases everything else allocated in the call.",
  ["programs", "histories"], "every scope kind, exit path and allocation kind, for any iteration count",
  "Tests check outputs, not memory; a leak per iteration never changes the output.",
  [CG, RT],
  [("arena creation and destruction around scopes", CG), ("gray_arena_reset, scope save and restore", RT)],
  "runtime monitoring: arena counters compared between N and 4N iterations",
  "Growth is decided on the runtime's own allocation counters (deterministic), for the enumerated scope kinds.",
  hook="GRAY_VERIF arena counters in " + RT)

p("C07", "Compiled programs behave as the language standard says",
  "For every well-typed program, the printed output and exit status equal those the language standard assigns to its statements: control flow (if, when, for, for_each, while, loop, break, continue, return), variable mutation and shadowing, recursion, structs, arrays, maps, strings, function calls and value semantics on assignment. This holds at every optimisation level.",
  ["programs", "inputs"], "every well-typed program of the generated sublanguage",
  "Tests are fixed programs each exercising one feature; interactions between features are unbounded.",
  [CG, TC, "grayc/src/parser/parser.c"],
  [("translation of each statement and expression to C", CG), ("type annotation of expressions", TC)],
  "runtime monitoring: reference interpreter as oracle over executions of random programs",
  "A random-program generator with an independent reference evaluation; sampled programs, sanitizers on.")

p("C08", "Operands are evaluated once, left to right, with short-circuit",
  "Operands, call arguments, literal elements and interpolated parts are evaluated left to right, each exactly once, and before the operation or call they feed. `&&` and `||` evaluate the right operand only when needed. The target of a compound assignment or increment is evaluated exactly once.",
  ["programs"], "every operator, literal, call and statement form with side-effecting subexpressions",
  "Tests use pure operands almost everywhere, so order and duplication cannot be observed.",
  [CG], [("emission of operands into C expressions and temporaries", CG)],
  "runtime monitoring: trace of evaluation events checked against the specified order",
  "Every expression form is enumerated with tracing operands; the event log must equal the specified sequence.")

p("C09", "Calls pass, default, name and return values as declared",
  "Every call binds each argument to its parameter whether positional, named, defaulted or a mix; an immutable parameter never lets the callee change the caller's value and a `&` parameter always does. All return values (single, multiple, named, or through a function reference, method, or generic function) arrive unchanged for every type. Function references call the function they name.",
  ["programs"], "every parameter shape x argument form x type",
  "Tests fix one signature at a time; combinations of defaults, names, mutability and types are unbounded.",
  [CG, TC], [("argument binding and default expansion", CG + " emit_call"), ("call checking and generic binding", TC)],
  "runtime monitoring: generated signatures with a binding oracle over executed calls",
  "Signatures, argument forms and types are generated; observed values are compared with the expected binding.")

p("C10", "ensure runs on every exit and or_return propagates errors",
  "An `ensure` call registered in a function runs exactly once, after the return value is computed and in reverse order of registration, on every way of leaving the function: fall through, return in any nesting, or or_return. `or_return` leaves the function with the error (or the stated fallback values) exactly when the callee reported one, and otherwise yields the callee's value. An ensure that was not reached does not run.",
  ["programs", "histories"], "every exit path from every nesting of scopes with any number of ensures",
  "Tests have a few paths; exits inside nested loops, branches and multi-return forms multiply.",
  [CG], [("ensure stack and return rewriting", CG + " NODE_ENSURE / return emission"), ("or_return emission", CG)],
  "runtime monitoring: trace checker over generated exit paths",
  "Generated functions print an event trace which must equal that of a reference execution.")

p("C11", "Enums and when select exactly the matching branch",
  "`when` runs exactly the branch whose value, range, or enum member matches, the default branch when none does, and binds tagged-enum payloads to the values the case was built with. Enum values keep their declared or implied number, string or flag value under printing, comparison, casting, storage and passing. #strict rejects any `when` that leaves a member uncovered.",
  ["programs", "inputs"], "every enum shape and subject value",
  "Tests have a few enums; payload types, attribute kinds and subject positions combine freely.",
  [CG, TC], [("when lowering and tag comparison", CG), ("exhaustiveness checking", TC)],
  "runtime monitoring: branch-trace oracle over generated enums and whens",
  "Generated enums and subjects; the branch taken is compared with a reference match.")

p("C12", "Arrays behave as sequences for every element type",
  "Indexing, assignment, iteration, comparison, copying, membership and every function of the arrays module give the result of the same operation on a mathematical sequence, for every element type and however the array was built. Copies and by-value parameters are independent of the original. Modifying an array while iterating it, or indexing outside it, panics instead of misbehaving.",
  ["histories", "inputs"], "every sequence of array operations over every element type",
  "Tests call each function a few times on small int or string arrays; element sizes and operation histories multiply.",
  [SL + "arrays.c", SL + "arrays.h", "grayc/src/runtime/array.c", CG],
  [("element storage and indexing", "grayc/src/runtime/array.c"), ("arrays module dispatch by element type", CG + " emit_arrays_call")],
  "runtime monitoring: sequence-model oracle over random operation histories, ASan",
  "Random histories per element type compared step by step with a list model.")

p("C13", "Maps behave as insertion-ordered dictionaries",
  "After any history of set, delete, clear, merge and copy, a map holds exactly the last value set for each key not deleted since; size, membership, lookup, keys, values and iteration agree with one another and follow insertion order. Reading an absent key without a default panics. Copies are independent and modification during iteration panics.",
  ["histories", "inputs"], "every operation history over every key and value type",
  "Tests insert a few keys; collisions, tombstones, growth and reuse only appear in long histories.",
  ["grayc/src/runtime/map.c", SL + "maps.c", CG],
  [("hash table with ordered entries", "grayc/src/runtime/map.c"), ("maps module", SL + "maps.c")],
  "runtime monitoring: dictionary-model oracle over random operation histories, ASan",
  "Random histories per key and value type compared step by step with a dict model.")

p("C14", "String functions match their definitions on all text",
  "Every function of the strings module, and string indexing, slicing, comparison, iteration and len, returns the value its documentation defines for all strings, including empty, multi-byte and invalid UTF-8, overlapping matches and out-of-range positions. No input string is changed by any call.",
  ["inputs"], "all strings and positions",
  "Tests use short ASCII examples; edge cases of empty needles, multi-byte text and extreme counts are open-ended.",
  [SL + "strings.c", SL + "strings.h", CG], [("string functions", SL + "strings.c"), ("string indexing and iteration emission", CG)],
  "runtime monitoring: reference-model oracle over random and boundary strings, ASan",
  "Every function is driven by random and boundary strings and compared with a Python model.")

p("C15", "A runtime fault always stops the program with a panic",
  "Every runtime fault the standard lists (index out of range, nil dereference, missing key, division by zero, overflow, invalid cast, invalid range, stack overflow, failed assertion, explicit panic, and misuse of library functions) stops the program with exit status 1, a message carrying its panic code and, for faults in user code, the file and line. Output printed before the fault is not lost. Nothing after the fault executes.",
  ["programs", "inputs"], "every fault kind in every expression position and scope",
  "Tests check one instance of most panics and only the message; position, location, flushed output and exit status vary by emission site.",
  [RT, RH, CG], [("gray_panic family", RT), ("emission of checks with file and line", CG)],
  "runtime monitoring: oracle over exit status, message and flushed output of injected faults",
  "Fault kinds x expression positions x scopes are enumerated.")

p("C16", "Printing and formatting render every value as specified",
  "print, println, interpolation, the fmt module and string conversion render every value of every printable type exactly as specified, including nested composites, negative and extreme numbers, special floats, enums, nil and empty containers. Floats round-trip, and every escape in a literal denotes the specified byte. Width, precision and padding options give exactly the requested layout.",
  ["inputs", "programs"], "every type, value and format specification",
  "Tests print a few values; nested types dispatch through separate emitted printers.",
  [CG, SL + "builtins.c", SL + "fmt.c"], [("print emission per type", CG + " emit_value_print"), ("fmt module", SL + "fmt.c")],
  "runtime monitoring: rendering oracle over random typed values",
  "Random typed values rendered by the program are compared with a reference renderer.")

p("C17", "strconv parses and prints numbers exactly",
  "Parsing accepts exactly the documented grammar and range and returns the denoted value, or an error with no value for everything else; formatting in any base or notation denotes the given number. Parsing a formatted number gives the number back.",
  ["inputs"], "all strings and numbers",
  "Tests parse a few strings; boundary magnitudes, signs, spaces, prefixes and junk are open-ended.",
  [SL + "strconv.c", SL + "strconv.h"], [("parsers with range checks", SL + "strconv.c")],
  "runtime monitoring: reference parser oracle, ASan + UBSan",
  "Generated and mutated numerals compared with a Python model.")

p("C18", "JSON parsing and encoding are correct and mutually inverse",
  "Decoding accepts exactly valid JSON and yields the denoted values; anything else is reported as an error. Encoding any supported value yields valid JSON denoting that value, with strings escaped correctly, and decoding it gives the value back, for every field type of a #json struct and for maps and arrays.",
  ["inputs"], "all JSON texts and all encodable values",
  "Tests use a few well-formed documents; escapes, nesting depth, numbers and malformed input are open-ended.",
  [SL + "json.c", SL + "json.h", CG], [("validator and decoder", SL + "json.c"), ("per-struct encoders and decoders", CG)],
  "runtime monitoring: reference JSON oracle over generated and mutated documents, ASan + UBSan",
  "Documents are generated and mutated; verdicts and values are compared with a strict Python parser.")

p("C19", "Encodings, digests, bytes and CSV compute their definitions",
  "base64, hex, URL and binary packing encode as defined and decode to the original, rejecting malformed text with an error; digests equal their published algorithms for every input length. The bytes and CSV functions return what they define for every input, and CSV output parses back to the same rows.",
  ["inputs"], "all byte strings, integers and tables",
  "Tests use a few vectors; padding, length boundaries, quoting and malformed input are open-ended.",
  [SL + "encoding.c", SL + "crypto.c", SL + "bytes.c", SL + "binary.c", SL + "csv.c"],
  [("codecs and digests", SL + "encoding.c"), ("quoting", SL + "csv.c")],
  "runtime monitoring: reference-library oracle (hashlib, base64, struct, csv), ASan + UBSan",
  "Random and boundary inputs compared with Python's libraries.")

p("C20", "Regular expression functions agree with the pattern language",
  "Matching, finding, counting, splitting, replacing and capturing return what the documented POSIX extended pattern language defines for every pattern and text, including empty matches, anchors and multi-byte text. Invalid patterns are reported as errors. Replacement text is inserted as documented and the search always terminates.",
  ["inputs"], "all patterns and texts",
  "Tests use a few patterns; empty matches, anchors at later positions and captures need specific inputs.",
  [SL + "regex.c", SL + "regex.h"], [("match loop over regexec", SL + "regex.c")],
  "runtime monitoring: libc regex oracle driven independently, ASan",
  "Random patterns and texts compared with an independent loop over the C library's matcher.")

p("C21", "Calendar and time conversions are consistent",
  "Breaking a timestamp into fields, rebuilding it, formatting and parsing it agree with the proleptic Gregorian calendar for every second in the supported range, in any time zone setting where documented. Parsing a formatted time gives the time back, and invalid dates or formats are reported. Monotonic readings never decrease.",
  ["inputs", "configurations"], "all timestamps, formats and zones",
  "Tests use a few dates; leap years, epoch crossings, negative times and zones are open-ended.",
  [SL + "time.c", SL + "time.h"], [("field extraction and formatting", SL + "time.c")],
  "runtime monitoring: Python datetime oracle over random and boundary timestamps",
  "Random and boundary timestamps compared with Python's calendar.")

p("C22", "Math functions compute their definitions or panic",
  "Every function of the math module returns the value of the mathematical function it documents, to the precision of the platform's library, for all arguments in its domain; integer results are exact. Arguments outside the domain and results that do not fit panic or return the documented value. Constants have their documented values.",
  ["inputs"], "all arguments",
  "Tests sample a few points; integer overflow, negative, huge and special arguments are open-ended.",
  [SL + "math.c", SL + "math.h", CG], [("math functions", SL + "math.h")],
  "runtime monitoring: exact-integer and libm oracle, UBSan",
  "Boundary and random arguments compared with Python's math and integers.")

p("C23", "Random values stay in range and UUIDs are well formed",
  "Every random function returns only values it documents as possible, can return each of them; a fixed seed reproduces the sequence. Shuffling and sampling return permutations and subsets of the input. Generated UUIDs are well formed, carry the right version and variant, and do not repeat, and validation accepts exactly well-formed UUIDs.",
  ["inputs", "histories"], "all ranges and seeds",
  "Tests draw a few values; bounds, bias at extremes and seed handling need many draws and extreme ranges.",
  [SL + "random.c", SL + "random.h", SL + "uuid.c"], [("range reduction", SL + "random.c"), ("uuid generation and parsing", SL + "uuid.c")],
  "runtime monitoring: range, permutation and coverage monitors over many draws, UBSan",
  "Millions of draws; distribution is judged only by coverage with negligible false-alarm probability.")

p("C24", "File operations have exactly the documented effect",
  "Every io function reads, writes, appends, copies, moves, lists or removes exactly the named files with exactly the given bytes, and leaves everything else untouched. When the operating system reports a failure the function returns an error and no partial success is reported. Reading back what was written gives the same bytes, for any content and size.",
  ["inputs", "fault_sequences"], "all contents, paths, modes and system-call failures",
  "Tests run on a healthy file system with small text; failures (full disk, permissions, interrupted or short reads and writes) never happen.",
  [SL + "io.c", SL + "io.h"], [("file operations over stdio and POSIX calls", SL + "io.c")],
  "runtime monitoring: file-system model oracle with injected system-call faults, ASan",
  "Random operation histories in a scratch directory against a model; system-call failures injected by an interposed library.")

p("C25", "Path functions follow their definitions on all paths",
  "Joining, cleaning, splitting, base name, extension, absolute and relative path functions return what they document for every path text, including empty, root, repeated separators and dot segments. Joining the directory and base name of a path denotes the same file.",
  ["inputs"], "all path texts",
  "Tests use a few ordinary paths.",
  [SL + "io.c", SL + "io.h"], [("path text functions", SL + "io.c")],
  "runtime monitoring: reference-model oracle over random paths, ASan",
  "Random separator- and dot-heavy paths compared with a model.")

p("C26", "Process and environment functions report what happened",
  "Commands run with exactly the given arguments (no word splitting or shell expansion of argument vectors beyond what is documented), and their output and exit status are returned in full for any size. Program arguments and environment variables are seen exactly as given, and changes to the environment are visible to later reads and children. exit ends the program with the given status.",
  ["inputs", "histories"], "all arguments, outputs, statuses and environment values",
  "Tests run a few simple commands.",
  [SL + "os.c", SL + "os.h"], [("exec and environment calls", SL + "os.c")],
  "runtime monitoring: recorder child process as oracle, ASan",
  "A recording child logs what it received; compared with what was passed.")

p("C27", "Channels deliver every message once and in order",
  "Every value sent on a channel is received exactly once, values from one sender arrive in the order sent, and a bounded channel never holds more than its capacity. Receivers drain what was sent before a close and then get the documented closed answer (0, or (0, false) from try_receive); a send on a closed channel delivers nothing, does not block, and try_send reports it by returning false. No sender or receiver waits forever when a counterpart, space or a close is available.",
  ["schedules", "histories"], "all interleavings of senders, receivers and close",
  "Tests run two threads once; lost wake-ups, close races and ordering need many interleavings.",
  [SL + "channels.c", SL + "channels.h", CG], [("ring buffer under mutex and condition variables", SL + "channels.c")],
  "runtime monitoring: offline checker over recorded send/receive events, TSan, delay injection",
  "Recorded histories under injected delays checked for conservation, order and capacity; TSan reports races.")

p("C28", "Locks exclude and atomics are linearizable",
  "Between lock and unlock of a mutex or spinlock no other thread is inside the same lock, try-lock reports the truth, and updates made under a lock are visible to the next holder. Atomic operations take effect one at a time: counts are never lost and every returned value is consistent with one total order.",
  ["schedules", "histories"], "all interleavings",
  "Tests increment a counter briefly; a missing barrier or non-atomic update rarely shows.",
  [SL + "sync.c", SL + "sync.h", SL + "atomic.c", SL + "atomic_mod.h", "grayc/src/runtime/atomic.h"],
  [("pthread mutex and spin flag wrappers", SL + "sync.c"), ("C11 atomic wrappers", SL + "atomic.c")],
  "runtime monitoring: history checkers (exclusion, ticket uniqueness, monotone order) and TSan",
  "Contended workloads with recorded results; TSan decides missing happens-before.")

p("C29", "Threads run once, join once, and do not corrupt each other",
  "A spawned thread runs its function exactly once with the arguments given at the spawn; join returns only after it finished, a detached thread runs to its end, is_alive and thread_count tell the truth, and a thread that cannot be started is reported. Threads may call any function and any library function on their own data without corrupting each other's values or memory, and lines printed by several threads come out whole. Panics in a thread stop the whole program with status 1.",
  ["schedules", "programs"], "all interleavings of threads running arbitrary code on private data",
  "Tests spawn a few short threads; shared hidden state in the runtime is only visible under contention and to a race detector.",
  [SL + "threads.c", SL + "threads.h", RT, CG], [("thread start wrapper and handle table", SL + "threads.c"), ("thread-local arenas", RT)],
  "runtime monitoring: TSan over library workloads in parallel threads, result oracle",
  "Every library module exercised from parallel threads under TSan, results compared with single-threaded ones.")

p("C30", "The HTTP server answers every request correctly and survives any input",
  "The server routes each request to the handler registered for its method and path with the request's path parameters, query, headers and body intact, and sends exactly the handler's status, headers and body. Malformed, truncated, oversized or slow requests get an error response or a closed connection and never crash, hang or affect other requests. Unmatched routes get 404.",
  ["inputs", "histories"], "all request byte streams and segmentations",
  "Tests send a few well-formed requests in one segment.",
  [SL + "server.c", SL + "server.h"], [("request reader, router and response writer", SL + "server.c")],
  "runtime monitoring: request/response oracle over loopback, hostile byte streams, ASan",
  "Generated well-formed and hostile requests over loopback with arbitrary segmentation.")

p("C31", "HTTP client and sockets deliver exactly the bytes exchanged",
  "The HTTP client sends the method, path, headers and body it was given and returns the status, headers and body the server sent, for any size, encoding (length, chunked, until close) and segmentation; malformed responses and connection failures are errors. Socket functions send and receive exactly the given bytes, honour timeouts, and report closure and failure. Hostile peers never crash the program.",
  ["inputs", "fault_sequences"], "all peer behaviours",
  "Tests cannot depend on a network and contact no hostile peer.",
  [SL + "http.c", SL + "net.c"], [("request writer and response reader", SL + "http.c"), ("socket wrappers", SL + "net.c")],
  "runtime monitoring: scripted loopback peers as oracle, ASan",
  "Scripted loopback peers with segmentation, truncation and malformed responses.")

p("C32", "The compiler never crashes or misbehaves on any input",
  "For any source bytes the compiler and formatter terminate in reasonable time with either success or at least one located error and a nonzero status; they never crash, read out of bounds, use uninitialised data, or exit silently. The same input always gives the same result.",
  ["inputs"], "all byte strings as source",
  "Tests feed chosen programs; malformed inputs are unbounded and memory errors pass silently without sanitizers.",
  ["grayc/src/lexer/lexer.c", "grayc/src/parser/parser.c", TC, CG, "grayc/src/fmt/fmt.c", "grayc/src/util/error.c"],
  [("error recovery in the parser", "grayc/src/parser/parser.c"), ("bounded tables and buffers", TC)],
  "runtime monitoring: ASan + UBSan build of the compiler over mutated and generated sources",
  "Grammar-aware mutations of the repository's own programs; crash, sanitizer report, hang or silent failure is a violation.")

p("C33", "Ill-typed programs are rejected",
  "Every program that breaks a typing, mutability, visibility, definition or control-flow rule of the standard is rejected with an error at compile time: it never compiles to a program that runs. The rule applies in every position the construct can appear, not only in the simplest one.",
  ["programs"], "every rule x every syntactic position",
  "Tests have one program per error code; a rule that is skipped in nested or unusual positions passes them.",
  [TC, "grayc/src/parser/parser.c"], [("checking of each statement and expression", TC)],
  "runtime monitoring: mutation of accepted programs into known-bad ones, acceptance monitor",
  "Rule x position matrix enumerated; acceptance of any bad program is a violation.")

p("C34", "An accepted program always builds and means the same in every mode",
  "Whenever checking a program reports no error, building it succeeds: the generated C compiles, and running it gives the same output and status under check, build, run, and every optimisation level. The compiler never accepts a well-typed program and then fails in the C compiler.",
  ["programs", "configurations"], "every accepted program, every mode and level",
  "Tests build each sample one way; combinations of types and forms reach unexercised code-generation paths.",
  [CG, TC, "grayc/src/main.c"], [("C emission for each typed form", CG), ("build driver", "grayc/src/main.c")],
  "runtime monitoring: build and run oracle over an enumerated type x form matrix, cross-mode comparison",
  "Enumerated matrix of types x forms plus the repository's own programs, compared across modes.")

p("C35", "Diagnostics point at the fault and obey their switches",
  "Every error and warning names the file, line and code of the construct at fault, wherever it is in the file or project, and the summary counts agree with what was printed. Suppressing a warning code silences exactly that code; errors cannot be suppressed; colour and quiet options change presentation only, never the verdict or exit status.",
  ["programs", "configurations"], "every diagnostic x position x option",
  "Tests match a code in the output and ignore the location.",
  ["grayc/src/util/error.c", TC, "grayc/src/main.c"], [("diagnostic printer", "grayc/src/util/error.c")],
  "runtime monitoring: location oracle over transplanted faulty constructs",
  "Faulty constructs transplanted to known lines, files and nestings; location must follow.")

p("C36", "Imports bring in exactly the named module, once and in order",
  "A program split over modules means the same as the program in one file: each imported module is found at the documented place, compiled once however often it is imported, and its public members are visible under its name or alias while private ones are rejected. Module-level variables are initialised once before use. Cyclic, missing and ambiguous imports are reported.",
  ["programs", "configurations"], "every module graph",
  "Tests use a few fixed projects; graph shapes, counts, aliases and name collisions are unbounded.",
  ["grayc/src/main.c", TC, CG], [("import resolution and module merging", "grayc/src/main.c")],
  "runtime monitoring: split-program equivalence oracle over random module graphs",
  "Random module graphs with a reference evaluation.")

p("C37", "Formatting keeps the program and is stable",
  "Formatting a source file never changes what the program does or prints, never alters string contents or comments, and formatting again changes nothing. The check mode reports exactly the files the write mode would change, and a file that cannot be formatted is left byte for byte as it was.",
  ["inputs", "fault_sequences"], "all source files",
  "Tests format a few snippets.",
  ["grayc/src/fmt/fmt.c", "cli/fmt.go"], [("token-based reformatting", "grayc/src/fmt/fmt.c"), ("file rewriting", "cli/fmt.go")],
  "runtime monitoring: token-stream and behaviour equivalence oracle over mutated layouts",
  "Random re-layouts of real programs; tokens, comments and behaviour compared before and after.")

p("C38", "The gray command reports the outcome in its exit status",
  "Every gray subcommand exits zero exactly when it did what was asked, and nonzero with a message on standard error otherwise. Running a program passes its arguments, input, output and exit status through unchanged. Unknown commands, options and missing files are reported.",
  ["configurations", "inputs"], "all command lines and program outcomes",
  "Tests call command functions in-process and rarely look at status, streams and argument passing.",
  ["cli/main.go", "cli/commands.go", "grayc/src/main.c"], [("command dispatch and status mapping", "cli/commands.go")],
  "runtime monitoring: black-box oracle over exit status and streams of command lines",
  "Enumerated subcommands x situations, plus random arguments and exit codes.")

p("C39", "Compiler extraction and concurrent builds do not interfere",
  "Any number of gray processes may start and build at the same time, on first use or after an upgrade, and each uses a complete compiler and runtime of its own version and produces its own program. A partial, corrupt or outdated extracted compiler or runtime is never used. Builds leave no stray files behind.",
  ["schedules", "crash_points"], "all interleavings of starts and builds, and interrupted extractions",
  "Tests extract once, in one process.",
  ["internal/grayc/embedded.go", "internal/grayc/grayc.go", "grayc/src/main.c"],
  [("content-hash cache with rename", "internal/grayc/embedded.go"), ("temporary C file naming", "grayc/src/main.c")],
  "runtime monitoring: concurrent process stress and crash injection with result oracle",
  "Concurrent first-use and build storms, and truncated or tampered caches.")

p("C40", "Updating installs a complete verified binary or changes nothing",
  "An update replaces the installed binary only with a complete download whose checksum and signature information match the release, and in every other case (truncated, tampered, missing or unreachable data, failed write, unsafe archive entry) reports the failure and leaves the installed version in place and working. Version comparison offers an update exactly when the release is newer.",
  ["fault_sequences", "crash_points", "inputs"], "all server responses and failure points",
  "Tests exercise helper functions with chosen data.",
  ["cli/update.go", "cli/verify.go"], [("download, verify, swap and roll back", "cli/update.go")],
  "runtime monitoring: fault-injecting release server and file-system oracle",
  "Scripted release data and failures against the real functions in scratch directories.")

p("C41", "doc, new and man give correct output for any project",
  "Generated documentation contains every documented item of a project exactly once with its text and signature and nothing private or unrelated; a generated project builds, runs and never overwrites existing files. The manual has an entry for every name it lists, and its examples of names match what the compiler accepts.",
  ["inputs", "programs"], "all sources and project names",
  "Tests check a few strings.",
  ["cli/doc.go", "cli/new.go", "cli/stdlib_man_data.go", "cli/lang_man_data.go"],
  [("doc extraction", "cli/doc.go"), ("templates", "cli/new.go")],
  "runtime monitoring: cross-check of outputs against the compiler over generated projects",
  "Generated documented sources and names; outputs checked against what was generated.")

p("C42", "User-managed arenas keep, reset and free memory safely",
  "Values allocated from a user-created arena keep their contents until that arena is reset or destroyed, allocation never overlaps live values, and reported usage is consistent with what was allocated. Allocating from a destroyed arena or destroying it again panics rather than corrupting memory, and reset memory is reused without unbounded growth.",
  ["histories"], "all histories of create, allocate, reset, destroy over several arenas",
  "Tests do one or two allocations.",
  [SL + "mem.c", SL + "mem.h", RT, CG], [("arena handles", SL + "mem.h"), ("bump allocation", RT)],
  "runtime monitoring: content and overlap monitor over random arena histories, ASan poisoning",
  "Random histories with content verification under poisoning.",
  hook="GRAY_VERIF arena poisoning in " + RT)

p("C43", "Same source and input, same bytes out",
  "Compiling the same sources always generates the same C and diagnostics, independent of directory, environment, time, locale and memory layout. Running a deterministic program twice gives the same output.",
  ["configurations"], "all environments",
  "Tests compile once.",
  [CG, TC, "grayc/src/main.c"], [("initialised state and ordered tables", CG)],
  "runtime monitoring: differential re-execution under perturbed environments and dirty memory",
  "Repeated compilations with heap and stack fill patterns, locales and directories; byte comparison.")

p("C44", "The sqlite module returns what the database holds",
  "Statements executed through the sqlite module have the effect SQL defines and rows come back with the stored values and types; errors are reported.",
  ["inputs", "histories"], "all statements and values",
  "Tests need the sqlite amalgamation.",
  [SL + "sqlite.c"], [("sqlite bindings", SL + "sqlite.c")],
  "none", "not claimed")
