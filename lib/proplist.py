TV = "TLA+ spec model-checked with TLC; recorded traces of the real code validated against it by TLC"
prop("C01", "Vector behaves as a growable sequence",
     "After any history of push, pop, shift, indexed assignment, resize and shrink, starting from any initial capacity, a "
     "Vector's size, emptiness, contents, iteration, each/accumulate/filter/map/find/indexOf results and printed form are "
     "those of the sequence that history describes, and its capacity is never below its size. Every element is kept alive "
     "exactly while it is in the vector and destroyed exactly once afterwards. pop/shift on an empty vector and any access "
     "outside the sequence panic; no operation touches memory outside the vector.",
     ["inputs", "histories"],
     "all operation histories (including growth from capacity 0, 1, 2... and after resize/shrink) over value, String and "
     "reference-counted class elements",
     "The tests push, pop, shift and resize two or three integers in a default-capacity vector; growth, managed elements, "
     "iteration, search and histories mixing shrink/resize/shift with later pushes are never reached.",
     ["src/cxy/stdlib/vector.cxy"],
     [("grow / resize / shift keep data, size and capacity in step", "src/cxy/stdlib/vector.cxy: grow, resize, shift")],
     ["return values and observable contents after every operation"], TV,
     note="Every history is executed on the real Vector (AddressSanitizer build) for i32, String and class elements and judged "
          "by TLC; exhaustive for short histories, sampled for long ones. Trusts the C toolchain and the driver program.")
prop("C03", "HashMap and HashSet behave as a map and a set",
     "After any history of insert (with or without replacement), indexed assignment, remove and clear, a HashMap holds "
     "exactly one entry per key with the last value written, and lookups, contains, size, emptiness and insert results "
     "agree with it; a HashSet likewise holds exactly the inserted and not removed items. Iteration (for, each, map) visits "
     "every entry exactly once, however many there are and however their hashes collide. Values are destroyed exactly once, "
     "when they are replaced, rejected, removed, cleared or the table goes away.",
     ["inputs", "histories"],
     "all operation histories, key sets, hash functions and initial capacities",
     "The tests insert two strings and remove one; collisions, probing past the end, rehashing up and down, iteration over "
     "more than a few entries and rejected inserts are never reached.",
     ["src/cxy/stdlib/hash.cxy", "src/cxy/runtime/builtins.cxy"],
     [("robin-hood probing with backward-shift deletion", "src/cxy/stdlib/hash.cxy: insertInternal, getInternal, remove, probe, rehash"),
      ("hash functions", "src/cxy/runtime/builtins.cxy: hash_fnv1a_*, hash")],
     ["results of every operation; destroy counts of values"], TV,
     note="Integer, String and deliberately colliding keys; class values counted by destructors; AddressSanitizer build; "
          "exhaustive for short histories, sampled for long ones (up to about 900 keys).")
prop("C17", "Control flow, defer and exceptions run in the order the program says",
     "For every well-formed program, the observable effects (output, calls, returned values) of if/else, ternary, &&, ||, "
     "while, range and collection for, switch (including several matches per case), break, continue, return, defer, raise, "
     "catch (default value, block, yield, return, re-raise, discard) and propagation of exceptions happen in the order the "
     "language defines: conditions are evaluated once per test and short-circuit, loops visit each value of their range in "
     "order, exactly one case runs, a deferred statement runs exactly once when its block is left on any path, innermost and "
     "last first, after the returned value is computed, and an exception skips everything up to the catch that handles it "
     "and carries the raised value there.",
     ["inputs", "programs"],
     "all well-formed programs built from these statements and all arguments",
     "The compiler's tests compare the generated C of a handful of fixed snippets; nothing executes nested combinations of "
     "loops, defers, switches, early exits and exceptions.",
     ["src/cxy/lang/middle/defer.c", "src/cxy/lang/middle/sema/exception.c", "src/cxy/lang/middle/simplify/simplify.c",
      "src/cxy/lang/middle/sema/switch.c", "src/cxy/lang/backend/c/generate.c"],
     [("deferred statements are copied to every exit of their block", "src/cxy/lang/middle/defer.c"),
      ("exceptions are result unions tested after each call", "src/cxy/lang/middle/sema/exception.c"),
      ("range loops, switch cases and short-circuit code", "src/cxy/lang/middle/simplify/simplify.c, src/cxy/lang/backend/c/generate.c")],
     ["events emitted by the generated programs, return value, exception"],
     "TLA+ operational semantics of the statement language; events of generated programs compiled by the real compiler are "
     "validated by TLC against the behaviour the specification gives the program",
     note="Programs are generated (swarm plus nested-jump templates), compiled with the real compiler and run; TLC executes the "
          "specification on the same program and compares every event. Calls that can raise inside operands of &&, || and ?: "
          "are a listed defect.")
prop("C16", "Integer expressions compute the value the language defines",
     "For every expression built from integer, boolean and character literals (decimal, hexadecimal, octal, binary, typed), "
     "locals, parameters, globals, struct fields, array elements, tuple members and pointers of every integer type, with "
     "arithmetic, bitwise, shift, comparison, logical, ternary, cast, prefix/postfix increment and compound assignment "
     "operators, the program computes the value given by the operators' precedence and associativity as written, two's "
     "complement arithmetic in the operand type, sign-preserving right shift of signed values, truncation or extension on "
     "casts and truncation on assignment to a narrower type; storing through one variable, field or element changes no other.",
     ["inputs", "programs"],
     "all well-typed expressions, all operand types and all operand values for which the operation is defined",
     "The tests compare the generated C text of a few fixed expressions; no test computes a value, so operand types, "
     "precedence, literal forms and narrowing are not exercised.",
     ["src/cxy/lang/frontend/parser.c", "src/cxy/lang/frontend/lexer.c", "src/cxy/lang/backend/c/generate.c",
      "src/cxy/lang/middle/sema/binary.c", "src/cxy/lang/middle/sema/cast.c", "src/cxy/lang/middle/preprocess/evaluate.c"],
     [("operator precedence", "src/cxy/lang/frontend/parser.c"),
      ("operand types and promotions", "src/cxy/lang/middle/sema/binary.c, unary.c, cast.c, literal.c"),
      ("emission of operators, casts and literals", "src/cxy/lang/backend/c/generate.c")],
     ["values printed by the generated programs"],
     "TLA+ bit-vector semantics of the expression language (BV.tla, Lang.tla); values computed by compiled programs validated by TLC",
     note="Expressions are generated over every integer type, storage kind and literal style with operand values biased to "
          "boundaries; TLC evaluates the same expression and compares. Undefined cases (overflow, division by zero, over-long "
          "shifts) are not generated.")
prop("C19", "Compile-time code computes what the same code computes at run time",
     "For every program, compile-time declarations (#const), assignments (#{..}), conditionals (#if / else #if / else, #if over "
     "blocks), loops (#for over ranges, range() with a step, arrays and strings, nested) and evaluated expressions (#{..}), "
     "together with macro expansion and the folding of literal expressions, yield exactly the values, and keep or repeat "
     "exactly the code, that executing the same statements in order on 64-bit integers and booleans would: every taken branch "
     "and every iteration is emitted once, in order, with the loop variable's value of that iteration, and nothing else.",
     ["inputs", "programs"],
     "all compile-time programs over integers and booleans, all nestings and all values for which the operations are defined",
     "The tests print the syntax tree of a few fixed snippets; nested loops with state, steps, negative ranges, macros with "
     "parameters and wide constants are never evaluated.",
     ["src/cxy/lang/middle/eval/eval.c", "src/cxy/lang/middle/eval/for.c", "src/cxy/lang/middle/eval/binary.c",
      "src/cxy/lang/middle/eval/unary.c", "src/cxy/lang/middle/eval/binary.c", "src/cxy/lang/middle/preprocess/evaluate.c",
      "src/cxy/lang/middle/preprocess/preprocessor.c"],
     [("compile-time evaluation replaces nodes in place", "src/cxy/lang/middle/eval/*.c"),
      ("macro expansion and literal folding", "src/cxy/lang/middle/preprocess/*.c")],
     ["events emitted by the code the compiler left in the program"],
     "TLA+ operational semantics (Lang.tla) run by TLC on the compile-time program; the events of the compiled program are validated against it",
     note="The same statement language and specification as C17, but executed by the compiler's evaluator: only the events are "
          "left for run time. Generated programs; undefined operations are not generated.")
prop("C26", "Structured values behave as the language defines",
     "For every program over structs, tuples, fixed arrays, optionals, tagged unions and enums, nested in any way: reading a "
     "member, element or tuple part gives exactly what was last stored there; assigning, passing, returning or copying a "
     "structured value copies it, so that a later change to either side never shows in the other; a reference parameter, a "
     "method receiver and a captured structure denote the caller's variable, everything else captured by a closure is its value "
     "when the closure was made; match and switch select exactly the case of the value's alternative or constant; an optional "
     "is empty exactly when null was stored; generic functions and structs behave as the non-generic code with the types filled "
     "in; calls go to the overload whose parameter types match, default arguments are filled in, and user-defined operators are "
     "called with their operands in order.",
     ["inputs", "programs"],
     "all programs of the language over these types, all nestings, access paths and values",
     "The tests compare the generated text for a few fixed snippets; combinations (a union in a generic struct in a tuple, "
     "array literals with calls, closures over tuples, paths several members deep) are never compiled or run.",
     ["src/cxy/lang/frontend/parser.c", "src/cxy/lang/backend/c/generate.c", "src/cxy/lang/middle/sema/member.c",
      "src/cxy/lang/middle/sema/match.c", "src/cxy/lang/middle/sema/closure.c", "src/cxy/lang/middle/sema/generics.c",
      "src/cxy/lang/middle/sema/call.c", "src/cxy/lang/middle/sema/struct.c", "src/cxy/lang/middle/sema/tuple.c",
      "src/cxy/lang/middle/sema/array.c", "src/cxy/lang/middle/sema/enum.c",
      "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/middle/mem/manage.c"],
     [("types, members, coercions to optionals and unions", "src/cxy/lang/middle/sema/*.c"),
      ("closures become objects with captured fields", "src/cxy/lang/middle/sema/closure.c"),
      ("instantiation of generics", "src/cxy/lang/middle/sema/generics.c"),
      ("emission of aggregates and copies", "src/cxy/lang/backend/c/generate.c, src/cxy/lang/middle/sema/builtins.c")],
     ["events emitted by the generated programs"],
     "TLA+ operational semantics with structured values (Lang.tla); events of generated programs compiled by the real compiler "
     "are validated by TLC",
     note="Random type worlds (structs, unions, enums, generics) and programs over them; every part of the values is shown as "
          "events after copies, assignments, calls, matches and loops.")
prop("C18", "Objects live exactly as long as they are referenced",
     "For every program compiled with memory management: an object of a class is destroyed (its deinit runs, once) no later "
     "than the first event after the last reference to it is gone -- a variable leaving its scope on any path (fall through, "
     "return, break, continue, raise), being reassigned, set to null or moved from, or the object, structure, tuple or union "
     "that holds the reference going away -- and never while a variable, parameter, captured value, field or element that the "
     "program can still reach refers to it; no object is destroyed twice, and passing, returning, storing, copying and "
     "choosing (?:) references keep this. On the way out of several blocks the objects of the inner ones may stay until the "
     "outermost has been left; objects on a cycle of references, discarded results and arrays of references are excluded.",
     ["inputs", "programs"],
     "all programs over classes and structured values holding references, all control flow paths and ownership histories",
     "The tests compare the generated C text for a few fixed functions; whether every path of every program releases each "
     "object exactly once is a property of paths and histories that no test executes.",
     ["src/cxy/lang/middle/mem/manage.c", "src/cxy/lang/middle/mem/finalize.c", "src/cxy/lang/middle/simplify/simplify.c",
      "src/cxy/lang/middle/sema/builtins.c", "src/cxy/lang/backend/c/generate.c"],
     [("where references are taken and dropped, drop flags", "src/cxy/lang/middle/mem/manage.c"),
      ("drop flags and moves in the generated code", "src/cxy/lang/middle/mem/finalize.c"),
      ("copy and destructor functions of structures, tuples and unions", "src/cxy/lang/middle/sema/builtins.c")],
     ["births and deaths of objects, and the other events, of the generated programs"],
     "TLA+ operational semantics with a heap (Lang.tla): TLC computes which objects are reachable at every event and checks "
     "the recorded births and deaths of the compiled program against it (LifeTrace.tla)",
     note="Generated programs (150 of 10 functions quick, 1000 of 12 thorough), each entry run in a process of its own.")
prop("C27", "Classes: construction, inheritance, dispatch and references",
     "For every class hierarchy: constructing an object runs the constructors from the most basic class down, with the "
     "arguments given, and leaves every field with the value stored last; a field or function inherited from a base class is the same "
     "field or function; a call of a virtual function runs the version of the object's own class whatever the static type of "
     "the reference, also when the function is overridden without the virtual keyword, in classes between, or where the base "
     "has no virtual functions; a call of another function runs the version of the static type; super.f() runs the version of "
     "the base class; references to one object show each other's changes; a null reference compares equal to null.",
     ["inputs", "programs"],
     "all class hierarchies, constructors, overriding patterns and programs over them",
     "The tests compare the generated text of a few fixed hierarchies; layouts and tables of other shapes (bases without "
     "virtual functions, overrides several levels apart) are never built or run.",
     ["src/cxy/lang/middle/sema/inheritance.c", "src/cxy/lang/middle/sema/class.c", "src/cxy/lang/middle/sema/member.c",
      "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/backend/c/generate.c", "src/cxy/lang/frontend/ttable.c"],
     [("virtual tables", "src/cxy/lang/middle/sema/inheritance.c"),
      ("class members and constructors", "src/cxy/lang/middle/sema/class.c, builtins.c"),
      ("dispatch", "src/cxy/lang/middle/simplify/simplify.c"), ("layout", "src/cxy/lang/backend/c/generate.c")],
     ["events emitted by the generated programs"],
     "TLA+ operational semantics with classes and dispatch (Lang.tla); events of generated programs compiled by the real "
     "compiler are validated by TLC",
     note="Random hierarchies (up to nine classes) with random overriding and programs that call through every static type.")
prop("C23", "The compiler's own containers are the objects they stand for",
     "For every sequence of operations, whatever the hashes of the keys, the capacity and the growth: a HashTable and an Hmap "
     "behave as finite maps (an insertion into a HashTable that has the key changes nothing and says so, a put into an Hmap "
     "replaces; what was put is found until it is removed; removing a key affects no other; enumeration and iteration visit "
     "every entry exactly once); a DynArray behaves as a sequence; a StrPool returns one and the same pointer exactly for equal "
     "strings, with the contents asked for (concatenated, formatted, trimmed, joined paths, fresh names), also when hashes "
     "collide; a StringBuilder holds what was appended, as decimal digits and UTF-8; blocks given out by a MemPool never "
     "overlap and keep what is written to them until they are given back; nothing is leaked or accessed out of bounds.",
     ["inputs", "histories"],
     "all histories of operations, all hashes, keys, sizes and contents",
     "There are no tests of these; the compiler's tests use them with the few histories its inputs happen to produce, while "
     "collisions, runs of entries that wrap around the table and removals in the middle of one depend on hash values.",
     ["src/cxy/core/htable.c", "src/cxy/core/hmap.c", "src/cxy/core/array.c", "src/cxy/core/strpool.c", "src/cxy/core/sb.c",
      "src/cxy/core/sb.h", "src/cxy/core/mempool.c", "src/cxy/core/hash.c", "src/cxy/core/primes.h"],
     [("linear probing with backward shift", "src/cxy/core/htable.c"), ("robin hood probing", "src/cxy/core/hmap.c"),
      ("interning", "src/cxy/core/strpool.c"), ("bump allocation, caches", "src/cxy/core/mempool.c")],
     ["answers of the operations"],
     "TLA+ model of the containers as maps, sequences, strings and blocks (CoreTables.tla); recorded histories of the real C "
     "code are validated by TLC; the probing algorithms themselves are model checked for all home slots (ProbeTables.tla)",
     note="2900 histories (147000 steps) quick, about 45000 thorough, under AddressSanitizer, with chosen hashes and with "
          "strings whose FNV hashes collide.")
prop("C25", "The compiler refuses exactly the statements that break the language's static rules",
     "For every program: a statement that breaks a rule about names (unknown, declared twice, used before it is declared, break or "
     "continue outside a loop), types (what may be assigned, passed, returned, stored, cast, compared, computed with, called, indexed, "
     "iterated, matched), constants (never assigned, changed or used to change what they contain), overloads (a call needs one that takes "
     "its arguments; the closest is called and decides the type), classes (abstract ones are not made, bases and constructors), switch and "
     "match cases, or exceptions (a call that may raise is caught or stands in a function that may) is refused with an error at that "
     "statement, and none is reported before it in the function; a function without such a statement is accepted.",
     ["inputs"],
     "all programs over primitives, strings, tuples, arrays, unions, optionals, pointers, structures and their operators, classes, enumerations, overloads, generic functions, closures, deduced results, exceptions",
     "The tests compile correct programs; a handful check one error message each.",
     ["src/cxy/lang/middle/sema/assign.c", "src/cxy/lang/middle/sema/binary.c", "src/cxy/lang/middle/sema/call.c",
      "src/cxy/lang/middle/sema/cast.c", "src/cxy/lang/middle/sema/check.c", "src/cxy/lang/middle/sema/class.c",
      "src/cxy/lang/middle/sema/exception.c", "src/cxy/lang/middle/sema/for.c", "src/cxy/lang/middle/sema/function.c",
      "src/cxy/lang/middle/sema/index.c", "src/cxy/lang/middle/sema/match.c", "src/cxy/lang/middle/sema/member.c",
      "src/cxy/lang/middle/sema/path.c", "src/cxy/lang/middle/sema/struct.c", "src/cxy/lang/middle/sema/switch.c",
      "src/cxy/lang/middle/sema/unary.c", "src/cxy/lang/middle/sema/variables.c", "src/cxy/lang/frontend/types.c",
      "src/cxy/lang/middle/bind/bind.c", "src/cxy/lang/middle/bind/scope.c"],
     [("assignability, casts, promotion", "src/cxy/lang/frontend/types.c"), ("overloads", "src/cxy/lang/middle/sema/function.c"),
      ("names", "src/cxy/lang/middle/bind/scope.c")],
     "which statement of each function is refused first",
     "TLA+ definition of the static rules (Statics.tla), its relations and the overload choice model checked (StaticMC.tla); what the real "
     "compiler says about generated programs is validated by TLC against it",
     note="7200 functions quick, 108000 thorough, about half of them with one wrong statement; a crash of the compiler on a wrong program "
          "counts as a refusal.")

prop("C28", "The compiler refuses exactly the declarations that contradict themselves or each other",
     "For every program: a declaration is refused, with an error in it, exactly if it breaks a rule: a name of the program, a parameter, a "
     "type parameter, a field, a method or an enumeration's option declared twice (functions without type parameters may share a name, if "
     "they differ in what they take, defaults included); an unknown type, or a variable used before its declaration; a default, a field's, a "
     "variable's or an exception's value of a type that may not be stored there; an enumeration over something else than integers, or "
     "with values that do not fit; an array's length that is no integer; a structure that inherits from something else than a "
     "structure; a class that extends what is no class, a final class or itself; what it says it implements being no interface, named "
     "twice, or not implemented; a main function of other parameters. Where types stand, the order of declarations makes no difference. "
     "(Names are judged before types; a declaration that builds on a refused one may be refused with it.)",
     ["inputs"],
     "all programs of functions, generic functions, variables, structures, classes, interfaces, enumerations, aliases, exceptions, main",
     "The tests hold one or two declarations that are wrong.",
     ["src/cxy/lang/middle/sema/class.c", "src/cxy/lang/middle/sema/struct.c", "src/cxy/lang/middle/sema/interface.c",
      "src/cxy/lang/middle/sema/enum.c", "src/cxy/lang/middle/sema/function.c", "src/cxy/lang/middle/sema/variables.c",
      "src/cxy/lang/middle/sema/array.c", "src/cxy/lang/middle/sema/check.c", "src/cxy/lang/middle/sema/builtins.c",
      "src/cxy/lang/middle/bind/bind.c", "src/cxy/lang/middle/bind/resolve.c", "src/cxy/lang/middle/bind/scope.c",
      "src/cxy/lang/frontend/types.c"],
     [("names", "src/cxy/lang/middle/bind/scope.c"), ("names in declarations", "src/cxy/lang/middle/bind/resolve.c"),
      ("functions", "src/cxy/lang/middle/sema/function.c"), ("interfaces", "src/cxy/lang/middle/sema/interface.c"),
      ("classes", "src/cxy/lang/middle/sema/class.c"), ("enumerations", "src/cxy/lang/middle/sema/enum.c")],
     "which declarations of the program are refused",
     "TLA+ definition of the rules for declarations (Decls.tla over Statics.tla), model checked for all small programs (DeclMC.tla: "
     "order does not matter, right declarations do not disturb); what the real compiler says about generated programs is validated by TLC "
     "against it",
     note="1500 programs of about 15 declarations quick, 20000 thorough, two thirds of them with something wrong; a crash of the "
          "compiler is a violation.")

prop("C29", "Modules share exactly what they export, and come to life in order",
     "For every program of several files: a module that is imported, by its own name, another one or for some of its names (each under its own or another "
     "name), by however many files and ways, exists once; its name and the names taken from it stand for its declarations, and what one file changes in a "
     "variable all others see; only what is declared public can be taken or used through the module's name, only what a module declares itself, not what it "
     "imports; every module comes to life once, before those that import it, its variables in the order declared, before main starts. A program "
     "is refused, with an error, exactly if a file that it reaches imports what is not there, is no module or leads back to itself, takes or uses what is not "
     "exported, or gives a name twice; files that are not reached do not matter.",
     ["inputs"],
     "all graphs of imports, sets of declarations and references across modules",
     "The tests import single library modules; none has diamonds, circles, renamed or hidden names.",
     ["src/cxy/driver/driver.c", "src/cxy/lang/frontend/module.c", "src/cxy/lang/middle/bind/discover.c", "src/cxy/lang/middle/bind/scope.c",
      "src/cxy/lang/middle/sema/path.c", "src/cxy/lang/frontend/parser.c", "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/core/e4c.h"],
     [("loading modules", "src/cxy/driver/driver.c"), ("what a module exports", "src/cxy/lang/frontend/module.c"),
      ("imported names", "src/cxy/lang/middle/bind/discover.c"), ("members of modules", "src/cxy/lang/middle/sema/path.c")],
     "which programs are refused, and what the others print",
     "TLA+ definition of names, loading and initialisation of modules (Modules.tla), model checked for every graph of imports among three (four thorough) "
     "files with any one fault (ModMC.tla); generated programs are compiled by the real compiler and run, and TLC validates what becomes of them",
     note="500 programs of 2 to 6 files quick, 6000 thorough, a quarter of them refused; functions, variables, constants, enumerations and structures "
          "cross modules; C headers do not.")

prop("C30", "Every test case runs once, and the run fails exactly if one of them does",
     "For every file with test cases, a module or not: `cxy test' runs each case of the file once, in the order written, and none of the modules it imports, nor "
     "main; a case fails exactly when an `ok!' in it, or in a function it calls, does not hold or an exception leaves it; then nothing more of it "
     "happens except what it deferred, the cases after it run all the same and find the variables as it left them; the report names each "
     "case with what it failed with, counts the failed ones, and the status tells if there are any; a file without cases passes.",
     ["inputs"],
     "all sequences of test cases, with failures at every depth",
     "Every test of the repository passes: what happens when one fails is never observed.",
     ["src/cxy/lang/middle/shake/shake.c", "src/cxy/lang/backend/c/generate.c", "src/cxy/runtime/builtins.cxy", "src/cxy/driver/driver.c"],
     [("cases become functions", "src/cxy/lang/middle/shake/shake.c"), ("main of a test program", "src/cxy/lang/backend/c/generate.c"),
      ("the runner", "src/cxy/runtime/builtins.cxy")],
     "the report of `cxy test' and its status",
     "TLA+ definition of what cases do, in sequence (Tests.tla), model checked for every sequence of up to five (seven thorough) small cases (TestMC.tla); generated "
     "files are given to the real compiler's test command, and TLC validates which cases ran, what each printed and raised, and what was said of them",
     note="400 files of up to 9 cases quick, 5000 thorough; loops, branches, deferred statements, caught exceptions, checks inside functions.")

prop("C24", "The command line means what it says",
     "For every list of arguments: the first one chooses the command when it names one (dev otherwise); a flag is recognised by its "
     "whole name or its letter, among the global flags and those of the command only; a flag that takes a value takes the rest of its "
     "argument, what follows `=`, or else the whole next argument, and a flag that takes none accepts none; values are checked "
     "(numbers, enumerations, definitions, optimization levels, warning lists); of repeated settings the last holds, lists accumulate "
     "in order; what is not given has its default; nothing behind `--` counts; the remaining arguments are the input files, in their "
     "order. Every other command line is refused with exactly one error that names the argument or flag, without crashing or writing "
     "out of bounds; help and version are shown when asked for. The settings compiled with are exactly these.",
     ["inputs"],
     "all argument lists (any length, any bytes) and the environment variables the compiler reads",
     "There is no test of the command line; the tests use one fixed invocation.",
     ["src/cxy/core/args.c", "src/cxy/core/args.h", "src/cxy/driver/options.c", "src/cxy/core/log.c"],
     [("reading arguments", "src/cxy/core/args.c"), ("settings of a compilation", "src/cxy/driver/options.c"),
      ("warning lists", "src/cxy/core/log.c")],
     ["settings, input files, error text, exit"],
     "TLA+ machine that reads arguments (CmdLine.tla), model checked for all lists of up to four tokens (CmdMC.tla); what the real parser "
     "makes of generated command lines is validated by TLC against it",
     note="3600 generated command lines quick, 48000 thorough, under AddressSanitizer; the rest of the compiler is not run.")

prop("C20", "Source text is read as the language defines, and literals stand for what they say",
     "Every text (any bytes) is read, without hanging or crashing, into the tokens the language defines: the longest symbol, keywords "
     "only as whole words, nested block comments and line comments skipped, numbers of every base, a fraction only where no member "
     "access or range begins, strings, \"\"\" strings, f-strings with their pieces, characters; each token with its exact byte range, row "
     "and column; text that is none is refused with an error. The value of a literal is what it says: escape sequences (named, octal, "
     "hexadecimal) and UTF-8 in strings and characters, integers up to 64 bits (larger ones are refused), floating point numbers "
     "rounded to the nearest double - and the compiled program sees exactly that value.",
     ["inputs"],
     "all texts, and all literals in compiled programs",
     "The tests tokenize one file of simple literals and never run a program that looks at the bytes of a literal.",
     ["src/cxy/lang/frontend/lexer.c", "src/cxy/core/utils.c", "src/cxy/lang/frontend/parser.c", "src/cxy/lang/backend/c/generate.c"],
     [("tokens", "src/cxy/lang/frontend/lexer.c"), ("escape sequences", "src/cxy/core/utils.c"),
      ("literals of the generated C", "src/cxy/lang/backend/c/generate.c")],
     ["tokens, positions, values, errors; values seen by compiled programs"],
     "TLA+ reader of texts (Lexer.tla), model checked for all texts of up to four bytes (five thorough) over 16 characters (LexMC.tla); tokens of the real "
     "lexer and literals of running programs are validated by TLC against it",
     note="6000 texts and 960 literals quick, 90000 and 9600 thorough; the lexer runs under AddressSanitizer. Floating point literals with exponents "
          "beyond 280 are not judged; a string is seen up to its first zero byte.")

prop("C07", "Coroutines run one at a time, in order, and none is lost",
     "For every program of coroutines that start each other (closures and async blocks), give way, sleep, wait for descriptors with or without a limit in "
     "time, exchange bytes over pipes and sockets, take and release mutexes and end: exactly one coroutine runs at a time, those that are "
     "ready run in the order in which they became ready, a sleep ends neither before its time nor while others could run first for ever, a wait for a "
     "descriptor ends when it is ready (telling for what) or when its time is over (telling so), a mutex has one holder and passes to "
     "its waiters in order, local variables survive every switch, every coroutine that is started runs to its end unless it waits for something "
     "that never happens, and the program ends when its main coroutine does.",
     ["histories", "schedules"],
     "all programs of coroutines, readiness of descriptors and clock values",
     "The tests start a coroutine or two; order, loss and wake-ups depend on interleavings of many with timers and descriptors.",
     ["src/cxy/stdlib/coro.cxy", "src/cxy/stdlib/list.cxy", "src/cxy/stdlib/native/evloop/ae.c", "src/cxy/lang/middle/builtins.h"],
     [("scheduler", "src/cxy/stdlib/coro.cxy"), ("event loop", "src/cxy/stdlib/native/evloop/ae.c")],
     ["which coroutine runs, with which locals, what its waits return"],
     "TLA+ model of the scheduler (Coroutines.tla), model checked for safety with all scripts up to a bound (CoroMC.tla); a program compiled by "
     "the real compiler interprets generated scripts over the real library and a clock of the driver, and TLC validates what it records",
     note="1200 histories (96000 steps) quick, 20000 thorough; one waiter per descriptor at a time; async blocks use no locals of a "
          "function that has returned; compiled programs run on the epoll back end only.")

prop("C08", "The event loop calls exactly what is due",
     "For every history of watching and unwatching descriptors, creating and deleting timers, rounds of the loop and actions of the "
     "functions it calls (which may change watches and timers, write, read, or close and reopen descriptors): a round waits until the first of a ready "
     "descriptor, the nearest timer or watch timeout, and the timeout asked for, and no longer; every descriptor that is ready (readable, "
     "writable, hung up or failed) for what it is watched for has its function called, with its data and what it is ready for, reading before "
     "writing unless a barrier asks for the reverse; every due timer fires, none fires early, twice or after it was deleted, repeated "
     "ones fire again after their interval, finalizers run once; a watch limited in time ends with exactly one timeout call if nothing happened "
     "before, and with none otherwise; no timer or watch is ever lost, nothing outside the loop's memory is touched.",
     ["histories", "schedules"],
     "all histories of operations, readiness and clock values",
     "No test runs the event loop; the interesting histories need timers, timeouts and callbacks that change the loop's state in one round.",
     ["src/cxy/stdlib/native/evloop/ae.c", "src/cxy/stdlib/native/evloop/ae.h"],
     [("rounds", "src/cxy/stdlib/native/evloop/ae.c"), ("readiness", "src/cxy/stdlib/native/evloop/ae.c")],
     ["calls of the functions, times waited, results"],
     "TLA+ model of the loop (EventLoop.tla), model checked for all histories of up to four operations over two descriptors and two timers with any "
     "readiness (LoopMC.tla); recorded histories of the real loop, over real sockets and pipes with a clock of the driver, are validated by TLC",
     note="1500 histories (150000 steps) quick, 20000 thorough, under AddressSanitizer with poisoned fresh memory; only the epoll back end; "
          "resizing the loop is not covered.")
