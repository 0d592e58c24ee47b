P("C01", "Arithmetic, comparison and bitwise operators compute the exact result",
  "Every unary and binary arithmetic, bitwise, shift and comparison operator of the language yields, for operands of every integer width and signedness and both float widths, the result that two's-complement modular arithmetic and IEEE-754 define. The result does not depend on how an operand is spelled: literal, constant, local, global, field, array element, dereference or call.",
  ["inputs", "programs"], "all operators x operand types x operand values (boundary values included) x operand spellings, alone and nested",
  "The repository's tests evaluate a handful of operators on a few i32 values; no test reaches unsigned, 1/8/16-bit or float widths at their boundaries, nor mixed operand spellings.",
  [I+"compiler/compiler.go", I+"compiler/compiler_comparisons.go", I+"compiler/compiler_constant.go", I+"compiler/compiler_constant_folding.go", I+"semantic/semantic.go"],
  [("binary operation lowering by type and signedness", I+"compiler/compiler.go"), ("comparison predicates", I+"compiler/compiler_comparisons.go"), ("constant folding", I+"compiler/compiler_constant_folding.go")],
  EXE, MODEL, "Random operator/type/value/spelling combinations compiled and executed, output compared with exact integer and IEEE arithmetic. Excluded: shifts by the width or more, division by zero, minimum divided by -1 (undefined in LLVM) and NaN printing.")
P("C02", "Casts between numeric types convert the value exactly",
  "A cast between any two integer, boolean or float types yields the value that truncation, sign or zero extension (by the signedness of the source type), rounding and truncation toward zero define. Chains of casts compose, and the spelling of the operand does not matter.",
  ["inputs", "programs"], "all ordered pairs of numeric types x values x operand spellings, and chains of casts",
  "Tests contain a few widening casts of small positive i32 values; sign and unsignedness at boundaries for every pair of types is a quantifier over values they do not sample.",
  [I+"compiler/compiler_conversions.go", I+"compiler/compiler.go", I+"compiler/compiler_constant.go"],
  [("integer, float and mixed casts", I+"compiler/compiler_conversions.go"), ("cast of a constant", I+"compiler/compiler_constant.go")],
  EXE, MODEL, "Random cast chains executed and compared with exact conversions. Excluded: float to integer out of range (undefined in LLVM), float to i1.")
P("C03", "Operators group by their documented precedence, to the left",
  "An expression written without parentheses means the same tree as the expression in which every operation is parenthesised according to the language's precedence levels and left associativity, for every combination of binary, prefix and postfix operators and casts. Spare parentheses around any operand change nothing.",
  ["inputs", "programs"], "all expressions over the operators, to a bounded size, with any choice of spare parentheses",
  "Parser tests hold a list of concrete expressions; precedence is a relation between every pair of operators in every nesting.",
  [I+"parser/parser.go", I+"parser/parser_precedence.go", I+"ast/expressions.go"],
  [("Pratt parser and precedence table", I+"parser/parser_precedence.go"), ("prefix and infix handlers", I+"parser/parser.go")],
  ["the parenthesised text of the parsed tree", "output of the compiled program"],
  "property-based testing: metamorphic (minimal vs full parentheses) and differential against a reference evaluator",
  "Random expression trees printed with minimal, random and full parentheses must parse to the same tree and evaluate to the model's value.")
P("C04", "Control flow executes exactly the statements the program text selects",
  "If, else-if and else chains, for loops in all their forms, switches with and without default, break, continue, early return and nested blocks run exactly the statements their conditions select, in order, and loops run exactly the right number of iterations. This holds at any nesting, including inside value-returning expression blocks and anonymous functions.",
  ["programs", "inputs"], "all terminating programs built from the control-flow statements, at bounded nesting",
  "Tests run a dozen fixed programs; jumps out of nested loops, switches and expression blocks combine in ways no fixed list covers.",
  [I+"compiler/compiler.go", I+"semantic/semantic.go", I+"parser/parser.go"],
  [("block, loop, if and switch lowering", I+"compiler/compiler.go"), ("pending-block bookkeeping", I+"compiler/compiler.go")],
  EXE, MODEL, "Random structured programs dense in control flow executed and compared, byte for byte, with a reference interpreter.")
P("C05", "Operands are evaluated once, left to right, with short-circuit logic",
  "Every operand, argument, element, index and condition of a statement is evaluated exactly once and strictly from left to right, whatever side effects it has. The right operand of && and || is evaluated only when the left one does not decide the result.",
  ["programs", "inputs"], "all expressions whose operands have visible side effects, in every syntactic position",
  "Order of evaluation shows only when operands have effects; the tests' operands are pure.",
  [I+"compiler/compiler.go", I+"compiler/compiler_comparisons.go"],
  [("expression lowering order", I+"compiler/compiler.go"), ("short-circuit blocks", I+"compiler/compiler.go")],
  EXE, MODEL, "Programs whose operands print traces and mutate state; the full trace is compared with the model.")
P("C06", "Names resolve to the innermost declaration in scope",
  "A name always denotes the most recent declaration of it in the innermost enclosing scope that has one: a shadowing variable leaves the shadowed one intact, and the outer meaning returns when the scope ends. This holds for locals, loop variables, parameters, globals, functions and captured variables alike.",
  ["programs"], "all nestings and redeclarations of few names, with few or a single identifier used for everything",
  "Shadowing bugs need particular nestings and redeclarations of the same name; tests use distinct names.",
  [I+"undomap/undomap.go", I+"semantic/semantic.go", I+"compiler/compiler.go", I+"ast/utils.go"],
  [("scoped symbol table with undo", I+"undomap/undomap.go"), ("frames in analysis and lowering", I+"semantic/semantic.go")],
  EXE, MODEL, "Programs that draw every name from a pool of one to three identifiers, compared with a model with lexical scopes.")
P("C07", "Structs, unions and arrays are values: copies are complete and independent",
  "Assigning, passing, returning, capturing or storing a struct, union or array copies all of it, and later changes to either copy never show in the other. Reading a field or element yields exactly what was last stored there; unions reinterpret the same bytes.",
  ["programs", "histories"], "all histories of copies and partial updates over nested aggregates",
  "Aliasing between copies only shows after a particular sequence of copies and updates; tests check single field reads.",
  [I+"compiler/compiler.go", I+"ctypes/types.go", I+"compiler/compiler_types.go"],
  [("aggregate storage, load and store", I+"compiler/compiler.go"), ("union storage", I+"compiler/compiler_types.go")],
  EXE, MODEL, "Random histories over nested structs, arrays and unions, all leaves dumped at the end and compared with a value-semantics model.")
P("C10", "Calls pass arguments and return results faithfully; anonymous functions capture",
  "A call binds every argument to its parameter and yields exactly the returned value or values, for direct calls, calls through function values, method-style calls, recursion and multiple results. An anonymous function sees the values its captured variables had when it was created, and assignments inside it do not reach the enclosing function.",
  ["programs", "inputs"], "all programs over functions with any parameter and result lists, function values and nested anonymous functions",
  "Tests call a few fixed functions; combinations of captures, nesting, function values in aggregates and multiple results are not sampled.",
  [I+"compiler/compiler.go", I+"semantic/semantic.go", I+"ast/expressions.go"],
  [("call lowering and multiple results", I+"compiler/compiler.go"), ("captured variables", I+"compiler/compiler.go")],
  EXE, MODEL, "Random call graphs, function values and closures compared with the model. A capture site evaluated again replaces the captured values of the previous one, as documented; generated programs respect that.")
P("C13", "Programs that break a typing or scoping rule are rejected",
  "A program that contains a violation of any typing, scoping or arity rule in code that can be reached is rejected with an error message and never compiled, wherever the violation stands. The same program with the rule respected is accepted.",
  ["programs"], "rules x places in a program x types involved",
  "Tests sample a few ill-typed programs; each rule must hold for every pair of types and in every position.",
  [I+"semantic/semantic.go", I+"semantic/semantic_builtin.go", I+"semantic/semantic_errors.go", I+"semantic/semantic_steps.go", I+"semantic/semantic_type.go"],
  [("type equality and per-node analysis", I+"semantic/semantic.go"), ("builtin signatures", I+"semantic/semantic_builtin.go")],
  ["errors reported by the front end", "acceptance by LLVM of what is emitted"],
  "property-based testing: one violation planted in random valid programs (mutation oracle), with rule-respecting twins",
  "About 60 rules, each planted at random places with random types in random valid programs. Code after a return, break or continue is not analysed by the compiler and not covered.")
P("C14", "Accepted programs compile to valid code that runs alike at every level",
  "Whatever valid program is given, compilation ends without an internal failure and produces a module that LLVM verifies. The program behaves identically when executed unoptimised, optimised or by the JIT.",
  ["programs", "configurations"], "all valid programs over the whole core language x optimisation levels",
  "Each test compiles one program at one level; undefined behaviour in emitted code only shows for some programs at some levels.",
  [I+"compiler/compiler.go", I+"compiler/compiler_types.go", I+"compiler/compiler_exec.go", I+"semantic/semantic.go"],
  [("whole lowering", I+"compiler/compiler.go"), ("type lowering", I+"compiler/compiler_types.go")],
  ["LLVM verifier", "output of the JIT, -O0 and -O2 executables"],
  "property-based testing: generated programs, LLVM verifier plus differential execution at several optimisation levels",
  "Large random programs over the core language verified by LLVM and executed by the JIT, at -O0 and at -O2, all compared with the model.")
P("C17", "The lexer yields exactly the tokens of the text, with their lines",
  "Any sequence of tokens, laid out with any whitespace and comments that keep them apart, lexes to exactly that sequence, each token with its text and the line it stands on, ending in one end-of-file token.",
  ["inputs"], "all token sequences x layouts",
  "Lexer tests check two fixed inputs.",
  [I+"lexer/lexer.go", I+"token/tokens.go"],
  [("longest match scanning", I+"lexer/lexer.go"), ("keyword table", I+"token/tokens.go")],
  ["token stream"], "property-based testing: generate-and-recover (tokens rendered to text, lexed back)",
  "Random token sequences rendered with random layout and lexed back.")
P("C20", "Layout is irrelevant and the printed tree is faithful",
  "Whitespace, line breaks, comments and optional semicolons never change what a program means: two layouts of the same tokens give the same printed tree and programs with the same behaviour. The printed tree keeps every name, operation and number of the text, in their order.",
  ["programs", "inputs"], "all programs x layouts; all programs printed",
  "Tests compare the printed form of a few statements.",
  [I+"parser/parser.go", I+"lexer/lexer.go", I+"ast/statements.go", I+"ast/expressions.go", I+"ctypes/types.go"],
  [("statement and expression printing", I+"ast/statements.go"), ("optional semicolons", I+"parser/parser.go")],
  ["printed form of the parsed program", "output of the compiled program"],
  "property-based testing: metamorphic (layouts of one program) and print/parse round trip",
  "Random programs in two random layouts must parse to the same tree, be stable under print and parse, and behave as the model says.")
P("C12", "Strings concatenate, compare and alias by their bytes",
  "Concatenating two strings yields a fresh string with the bytes of both and leaves the operands alone, the six comparison operators order strings by their contents, and a string value is a pointer whose aliases all see a byte that is written. Literals hold exactly the bytes they spell, escapes included.",
  ["histories", "programs"], "all histories of declaring, concatenating, comparing, indexing, writing, cutting and freeing strings of any bytes",
  "Tests print a couple of literals; contents with escapes, percent signs, UTF-8 or prefixes of each other, and aliasing after several steps, are not sampled.",
  [I+"compiler/compiler.go", I+"compiler/compiler_comparisons.go", I+"lexer/lexer.go"],
  [("string concatenation and comparison", I+"compiler/compiler.go"), ("escapes in literals", I+"lexer/lexer.go")],
  EXE, "property-based testing: model-based histories of string operations over byte buffers, partly under AddressSanitizer",
  "Random string histories simulated on byte buffers, compiled and executed (some with AddressSanitizer); strings inside general programs compared with the reference interpreter.")
P("C15", "A body that can end without returning its value is rejected, others are not",
  "A function, anonymous function or value block with a result is accepted exactly when every path through its statements, by the structure of if chains, switches with default and nested blocks, leaves through a return or an unreachable marker. Loops never count as returning, and bodies nested inside do not count for the enclosing one.",
  ["inputs", "programs"], "all bodies of bounded size over the control-flow statements, result types and forms of function",
  "The rule is a recursion over statement structure; tests have two or three shapes.",
  [I+"semantic/semantic.go", I+"semantic/semantic_steps.go", I+"parser/parser.go"],
  [("return-path analysis", I+"semantic/semantic.go")],
  ["acceptance or rejection of the program", "acceptance by LLVM of what is emitted"],
  "property-based testing: generated bodies, structural oracle for return paths",
  "Random bodies decided by a structural recursion; accepted ones must also yield a module LLVM verifies.")
P("C22", "Conditional compilation keeps true regions and erases false ones",
  "A region under a true #if condition behaves as if its contents stood there without it, names included; a region under a false one behaves as if it were absent, whatever well-formed code it contains. This holds for statements and declarations at any place and nesting.",
  ["programs"], "all programs x choices of regions, conditions and junk in false regions",
  "Tests hold one conditional; erasing must work for any contents, any nesting and any place.",
  [I+"parser/parser.go", I+"eval/values.go"],
  [("macro evaluation while parsing", I+"parser/parser.go"), ("condition values", I+"eval/values.go")],
  EXE, "property-based testing: metamorphic (conditional regions inserted in random programs), compared with a reference interpreter",
  "Random programs with random statement runs and items wrapped in true conditions and junk put under false ones, executed and compared with the model.")
P("C08", "Pointers read and write exactly the object they point to",
  "A pointer to a local, field, element, global or heap block reads and writes exactly that object, through any chain of dereference, indexing, field access, pointer arithmetic, casts between pointer types, copies in aggregates and calls. Heap blocks keep their contents until freed, reallocation preserves them, and distinct live blocks never overlap.",
  ["programs", "histories"], "all histories of taking, moving, copying, casting and using pointers, of allocating, reallocating and freeing",
  "Aliasing shows only after a particular history of pointer operations over particular types; the tests dereference a few fixed pointers.",
  [I+"compiler/compiler.go", I+"compiler/compiler_rest.go", I+"compiler/compiler_conversions.go", I+"semantic/semantic.go", I+"semantic/semantic_builtin.go"],
  [("address-of, dereference, index and field lowering", I+"compiler/compiler.go"), ("allocation builtins", I+"compiler/compiler_rest.go")],
  ["output of the compiled program", "AddressSanitizer reports on programs that stay in bounds"], "property-based testing: model-based histories over pointers and heap blocks, executed under lli and natively",
  "Random histories simulated on typed cells (only in-bounds, live accesses are generated) and compared with the execution, plus random whole programs using pointers compared with the reference interpreter.")
P("C09", "Size, layout and bytes of every type follow the C ABI",
  "The size of every type, the offset of every field and element, and the bytes of every scalar inside an object are those a C compiler for the target gives the same declaration. Objects filled by C are read back unchanged by Candice, and the other way round.",
  ["inputs", "programs"], "all types built from scalars, pointers, arrays, structs and unions to a bounded depth, with all leaf values",
  "No test measures a layout; a wrong union size or field index shows only for particular member combinations.",
  [I+"compiler/compiler_types.go", I+"ctypes/types.go", I+"compiler/compiler.go"],
  [("LLVM type of each type; union storage", I+"compiler/compiler_types.go"), ("sizes", I+"ctypes/types.go")],
  ["addresses and bytes the compiled program prints", "bytes a linked C program reads"], "property-based testing: differential against C ABI layout rules and against clang-compiled C code over random types",
  "Random nested types: sizes and offsets compared with the computed C layout; objects filled leaf by leaf and dumped as bytes and the reverse; objects exchanged by pointer with a C file compiled by clang.")
P("C24", "Calls across the C boundary keep every value in both directions",
  "Calling an extern C function, being called back by C through a function pointer, and calling a public Candice function from C each pass all scalar, pointer and string arguments and the result unchanged, for any number of parameters. Variadic C functions receive their arguments as C expects. Extern functions may be declared before or after their uses, in any files, with any types that C passes alike, also the ones that the compiler uses itself.",
  ["inputs", "programs"], "all signatures of scalars, pointers, strings and function pointers, with all values",
  "The tests call printf and malloc; narrow integers with garbage in the upper bits, many parameters and callbacks need generated signatures.",
  [I+"compiler/compiler.go", I+"compiler/compiler_types.go", I+"semantic/semantic.go", I+"parser/parser.go"],
  [("declaration of extern functions and export of public ones", I+"compiler/compiler.go"), ("function types", I+"compiler/compiler_types.go")],
  ["output of the program linked from Candice and C"], "property-based testing: differential between Candice and clang-compiled C over random signatures and values",
  "Random signatures and values; each side prints what it received and the whole output is compared with the expected one, at -O0 and -O2. A second family declares the same functions in several files with other types that are passed alike, next to the built-ins that use malloc, free, realloc, memcpy, strlen, strcmp and printf. Structs by value are outside the domain.")
P("C16", "Imported and generic files behave as if written out once per type arguments",
  "Every name resolves in the file that mentions it, whatever other files call the same, and an imported function, type or global is reached through the alias, along any chain of relative imports. Importing a file again with the same types, from anywhere and under any alias, gives the same instance: equal types and one set of globals. Different type arguments give independent instances in which the parameter behaves exactly as the argument type written out.",
  ["programs", "configurations"], "all acyclic sets of files, imports, aliases and type arguments, to a bounded size",
  "The tests import a few fixed files; identity of types and globals over diamonds, equal names in different files and nested type arguments are relations over all import graphs.",
  [I+"semantic/semantic.go", I+"semantic/semantic_steps.go", I+"compiler/compiler.go", I+"compiler/compiler_types.go", I+"parser/parser.go", "std/array.cd", "std/map.cd"],
  [("import resolution and sharing of instances", I+"semantic/semantic.go"), ("module compilation and access", I+"compiler/compiler.go"), ("type parameters", I+"parser/parser.go")],
  EXE, "property-based testing: generated import graphs of generic files, differential against the reference interpreter on the program flattened by substitution",
  "Random file graphs (up to five files, subdirectories, several instances) executed and compared with the model run on the written-out program. Import cycles are outside the domain.")
P("C26", "A name given to a type means that type everywhere",
  "A program in which types are replaced, at any place where a type can be written and nested in any other type, by names defined with a type declaration is accepted exactly as before and prints the same.",
  ["programs"], "all programs x choices of type names and of the places that use them",
  "The tests define two type names; transparency must hold at every syntactic place and depth.",
  [I+"semantic/semantic.go", I+"semantic/semantic_steps.go", I+"compiler/compiler_types.go", I+"parser/parser.go"],
  [("resolution of named types", I+"semantic/semantic.go"), ("LLVM types of named types", I+"compiler/compiler_types.go")],
  EXE, "property-based testing: metamorphic (types renamed in random programs), compared with the reference interpreter",
  "Random programs printed with random type names in place of types, executed and compared with the model.")
P("C18", "Whatever the text, the front end answers with a tree or located errors",
  "For any sequence of bytes the lexer, the parser, the tree printer, the semantic analysis and the code generation end: with a result, or with errors that carry a position. None of them panics, hangs, recurses without bound or reports an internal failure, and a program that all of them accept gives a module that LLVM verifies.",
  ["inputs"], "all byte strings; in particular token soups, mutated and spliced real programs, and programs with names and types exchanged",
  "Crashes hide at combinations of tokens nobody wrote down; the tests feed well-formed programs and a few errors.",
  [I+"lexer/lexer.go", I+"parser/parser.go", I+"parser/parser_precedence.go", I+"semantic/semantic.go", I+"semantic/semantic_steps.go", I+"semantic/semantic_builtin.go", I+"compiler/compiler.go", I+"undomap/undomap.go", I+"tree_printer/printer.go"],
  [("parser error recovery", I+"parser/parser.go"), ("semantic analysis of arbitrary trees", I+"semantic/semantic.go"), ("code generation of what was accepted", I+"compiler/compiler.go")],
  ["panics, timeouts and error messages of the library entry points", "verdict of the LLVM verifier on what is emitted"],
  "fuzzing: grammar-aware and byte-level mutation of programs, crash/hang/internal-error oracle plus LLVM verification of accepted ones",
  "Six generators (bytes, token soup, random token sequences, mutated real programs, exchanged names, mutated programs through the tree printer). Sources are capped at 40 KB and each stage has a time limit.")
P("C11", "A constant expression has the value it would have at run time",
  "A global initialiser or constant built from literals, constants of any scope or file, operators, casts, sizes and comparisons is evaluated by the compiler to exactly the value the same expression yields when it is executed inside a function. The constant keeps this value wherever it is used: other initialisers, switch cases, anonymous functions, run-time code. What the compiler cannot fold is rejected with a located error, never given another value.",
  ["inputs", "programs"], "all constant expressions over numeric types, strings, functions, pointers, operators, casts and nesting, to a bounded size, and all uses of constants",
  "Two separate evaluators must agree on every operand; tests hold two or three global constants.",
  [I+"compiler/compiler_constant.go", I+"compiler/compiler_constant_folding.go", I+"compiler/compiler.go"],
  [("folding of operators, comparisons and casts", I+"compiler/compiler_constant_folding.go"), ("constant initialisers of globals", I+"compiler/compiler_constant.go")],
  EXE, "property-based testing: differential between the compiler's constant evaluation, its run-time code and an exact reference",
  "Random constant expressions, each one placed as a global initialiser and as a run-time expression in the same program; both outputs compared with exact arithmetic. A second family chains constants of numbers, strings, functions and pointers through scopes, anonymous functions and files, and uses them in initialisers, cases and at run time. Division by zero, oversized shifts and out-of-range float casts may be rejected.")
P("C19", "The command line builds, runs and configures a project as documented",
  "The build, run, init and tree commands take the entry file, output name, flags, objects and kind from candice.json and the command line, so that the program that results behaves as the sources say, in debug and in release builds alike. The output ends up where the configuration says and no source file is touched; errors in the sources or the configuration are reported, and then nothing is built over an earlier program and nothing is run.",
  ["inputs", "configurations"], "all project layouts, configurations, modes and options over random programs, including broken ones",
  "No test runs the command at all; output names, directories, flags, objects and modes combine.",
  ["cmd/build/main.go", I+"build/builder.go", I+"build/config.go", I+"program/program.go", I+"compiler/compiler.go", I+"compiler/compiler_rest.go"],
  [("modes and arguments", "cmd/build/main.go"), ("driver of the native compiler", I+"compiler/compiler.go")],
  ["exit status and output of the command", "files of the project afterwards", "output of the built program"],
  "property-based testing: random projects and invocations against a model of the command, programs compared with the reference interpreter",
  "Random projects in scratch directories (entry file, imports, C objects, flags, kinds, broken files) driven through the real binaries.")
P("C23", "@print writes each argument in its own format, whatever it is",
  "@print writes its arguments in order, separated by single spaces and followed by nothing, each in the format its type calls for: exact signed or unsigned decimal for integers of every width, three decimals for floats, the bytes of strings. What the arguments contain, how many there are and how they are spelled changes nothing.",
  ["inputs", "programs"], "all lists of arguments over types, values, spellings and string contents (percent signs included)",
  "The tests print a few positive i32 values and short strings; format strings are built per call from types and literals.",
  [I+"compiler/compiler.go", I+"compiler/compiler_format.go", I+"compiler/compiler_utils.go"],
  [("format string of a print call", I+"compiler/compiler_format.go")],
  EXE, "property-based testing: random argument lists, output compared byte for byte with an independent formatter",
  "Random print calls (types, boundary values, spellings, nested calls, literal text with percent signs and line ends) executed and compared with exact formatting.")
P("C25", "The standard Array and Map behave like a list and a dictionary",
  "After any sequence of operations an std Array holds exactly the elements a list would, in order, through growth, popping, appending and indexing, and an std Map the entries a dictionary would. This holds for every element type, for several containers at once and for containers of containers.",
  ["histories", "inputs"], "all histories of container operations that stay in bounds, over element types and several containers",
  "Growth, popping and reuse of storage show only after particular histories; the tests push a few integers.",
  ["std/array.cd", "std/map.cd", I+"semantic/semantic.go", I+"compiler/compiler.go"],
  [("growth and access", "std/array.cd"), ("dictionary", "std/map.cd")],
  EXE, "property-based testing: model-based operation histories against a list and a dictionary",
  "Random histories over random element types compiled with the repository's own std files and compared with the model. Popping an empty Array is undefined and not generated.")
P("C27", "The same sources always give the same answer",
  "Compiling the same files again, in the same or in a new process, gives the same verdict, the same diagnostics in the same order and the same module, apart from the internal names of values and symbols.",
  ["programs", "schedules"], "all programs, accepted and rejected, and repetitions of the compilation",
  "Iteration over Go maps differs from run to run; one run of a test cannot see it.",
  [I+"semantic/semantic.go", I+"semantic/semantic_steps.go", I+"compiler/compiler.go", I+"compiler/compiler_types.go", I+"undomap/undomap.go"],
  [("walks over declared names", I+"semantic/semantic.go"), ("order of emitted definitions", I+"compiler/compiler.go")],
  ["module text and diagnostics of repeated compilations"],
  "property-based testing: metamorphic (repetition) over random accepted and rejected programs and file graphs",
  "Random programs, broken ones included, compiled several times over, within one process and in fresh ones; all answers must be equal.")
P("C28", "Every error is reported at the place of the violation",
  "For a program with a single violation, every reported error carries the line of the construct that breaks the rule, in the file that contains it, whatever surrounds it and however its text is spread over lines. When that file is imported, the errors first name the imports that lead to it, each at its own line; the first error of a text that does not parse is on the line where it stops making sense.",
  ["programs"], "all placements of one violation of a rule in programs and import chains, with any layout",
  "Tests look at whether an error exists; its place depends on the construct, on nesting and on the layout of everything before it.",
  [I+"semantic/semantic.go", I+"semantic/semantic_steps.go", I+"semantic/semantic_builtin.go", I+"parser/parser.go", I+"lexer/lexer.go", I+"ast/statements.go"],
  [("errors with the token of a node", I+"semantic/semantic.go"), ("errors of the parser", I+"parser/parser.go"), ("lines of tokens", I+"lexer/lexer.go")],
  ["error messages of the library entry points"],
  "property-based testing: one generated violation at a known place of a random program or file chain, positions compared",
  "About 85 rules with several texts each, spread over lines, in random programs and at the end of import chains. Lines are compared, columns are not.")
P("C29", "A text is parsed exactly when the grammar allows it",
  "Every text that follows the grammar is parsed without errors, and every text that does not is rejected with a syntax error: brackets that do not pair, a missing or spare comma, operand, operator, name, keyword or type, an assignment to something that is not a place, a number out of range, an unknown character, a string without end. One wrong token anywhere is enough.",
  ["programs"], "all texts at one or two token edits of a valid program",
  "Tests parse correct programs; what the parser lets through in their place is the set of all other texts.",
  [I+"parser/parser.go", I+"parser/parser_assignment.go", I+"parser/parser_builtin.go", I+"lexer/lexer.go"],
  [("expected tokens", I+"parser/parser.go"), ("assignable expressions", I+"parser/parser_assignment.go"), ("illegal tokens", I+"lexer/lexer.go")],
  ["Parser.Parse", "Lexer.NextToken"],
  "property-based testing: token edits of generated programs, differential against an independent recogniser of the grammar",
  "Conditions of #if, loops without a block and builtins of modules are left undecided by the recogniser.")

P("C30", "The language server answers every request and follows every edit",
  "Whatever history of messages a client sends, the language server (cmd/autocomplete) lives until its input ends and answers every request exactly once, in order and under its own id: initialize by announcing full text synchronisation, a request it does not know with an error, a notification not at all. Every textDocument/didChange writes the tree of the document as it is after the change, or the first syntax error when it has one, whatever the documents and messages before it; malformed messages change nothing for the ones that follow.",
  ["histories", "inputs"], "every history of well framed JSON-RPC messages",
  "No test runs the server; one bad message, one edit under way or one unexpected request is enough to leave an editor waiting or without server.",
  ["cmd/autocomplete/main.go", I+"autocomplete/server/server.go", I+"autocomplete/server/on_change.go", I+"autocomplete/server/on_initialize.go", I+"tree_printer/printer.go"],
  [("dispatch and answers", "cmd/autocomplete/main.go"), ("handlers", I+"autocomplete/server/server.go"), ("edits", I+"autocomplete/server/on_change.go")],
  ["Connection.HandleConnection", "Connection.onChange", "Connection.onInitialize", "tree_printer.WriteOutput"],
  "property-based testing: generated histories of messages, model of the answers, differential of every tree against a process without history",
  "Frames that are not JSON are left out: the connection library ends there. Whether the tree itself is faithful is decided by C31.")

P("C31", "The tree that is drawn is the tree of the program",
  "For every program that parses, the tree mode draws each declaration, statement and expression exactly once, in source order and nested as the grammar nests them, with its operators, names and literals, and the types of literals, casts, parameters, results and fields. Every node stands below its parent, joined to it by the connectors. Layout, comments and spare parentheses do not show.",
  ["inputs"], "every program that follows the grammar",
  "The tests of the printer compare a handful of programs; a child that is dropped, swapped or drawn at the wrong column only shows for the constructs and depths that have it.",
  [I+"tree_printer/printer.go", I+"parser/parser.go", I+"parser/parser_precedence.go", I+"parser/parser_assignment.go", I+"ctypes/types.go", I+"ops/operations.go"],
  [("drawing", I+"tree_printer/printer.go"), ("parser", I+"parser/parser.go"), ("precedence", I+"parser/parser_precedence.go")],
  ["tree_printer.WriteOutput", "tree_printer.Process", "tree_printer.ConnectString", "Parser.Parse"],
  "property-based testing: generated programs, differential of the whole drawing against the tree of the model that generated them, drawn independently",
  "What the drawing leaves out (types of variables, const, names of structs and unions, aliases of imports, the module of a struct literal) is left out of the model as well.")
