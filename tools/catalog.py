MG = ["wasm-merge/src/lib.rs", "wasm-merge/src/options.rs"]
WC = ["wasp-compiler/src/lib.rs", "wasp-compiler/src/ast/wasp.rs", "wasp-compiler/src/ast/pest.rs", "wasp-compiler/wasp.pest"]
T_ME = ("The tests that merge need the external merge tool, run two or three fixed modules, and cannot run where the tool is missing; they sample no ")
VF = "interprocedural value-flow analysis of MIR (abstract interpretation into value terms) with an effect log"
N_ME = ("Decided from the compiler's resolved MIR for each option set left symbolic and for module lists of 0, 1, 2 (quick) and more (thorough) modules with unknown contents and names. "
        "Trusted: rustc's MIR, models of the standard library's process, file and temp-file calls, the external tool's documented command line.")
N_WC = ("Decided from resolved MIR and the grammar text for abstract sentences (every advice form, with names, types and guest code left unknown) alone and in sequences up to a bound. "
        "Trusted: rustc's MIR, models of the standard library and of the parser generator's semantics (ordered choice, greedy repetition, atomicity).")
N_LEN = " The quantifier over sequence length is discharged for the bounded lengths (and for unknown length where the loop admits it)."

PROPS = [
 dict(id="M01", title="Merging hands every module to the merge tool under its own namespace, in order",
  statement="Whatever modules are given to be merged, the merge tool is started with exactly one (file, namespace) pair per module, the pairs being in the caller's order with the primary module, if any, first. The file of a pair contains that module's bytes and the namespace is that module's own.",
  over=["inputs", "configurations"], **{"for": "every primary/no primary choice, every list of modules, all module contents and names, all options"},
  tests=T_ME + "orders, counts or contents of modules.", files=MG,
  mech=[("argument assembly from the input-module list", "wasm-merge/src/lib.rs MergeOptions::merge")],
  technique=VF + ": the argument vector of the child process against the module list", note=N_ME + N_LEN),
 dict(id="M02", title="Each merge option reaches the merge tool as its own flag, and only then",
  statement="For every combination of merge options, the merge tool receives precisely the flags of the enabled options, each once, and nothing for a disabled option. No option changes the effect of another.",
  over=["configurations"], **{"for": "every combination of option values, with and without modules"},
  tests="Tests exercise a couple of option combinations, and only where the external tool exists; the product of the options is not covered.", files=MG,
  mech=[("flag rendering of each option", "wasm-merge/src/options.rs")],
  technique=VF + ": arguments tabulated over symbolic option values", note=N_ME),
 dict(id="M03", title="A merge reports success only if every step of it succeeded",
  statement="A merge whose temporary file, write, tool start, tool run or output read fails returns an error that says which step failed and carries the system's reason, or the tool's diagnostics; it never panics and never returns bytes. If the tool reports a problem, by exit status or on its error stream, the merge is an error; otherwise the result is the merged module.",
  over=["fault_sequences", "inputs"], **{"for": "every effect of a merge failing in turn, every exit status and diagnostics of the tool"},
  tests="No test injects I/O faults or a failing tool; the one failing merge in the tests needs the external tool.", files=MG + ["wasm-merge/src/error.rs"],
  mech=[("error mapping at each fallible call", "wasm-merge/src/lib.rs MergeOptions::merge"), ("error kinds", "wasm-merge/src/lib.rs Error")],
  technique=VF + " with fault injection into the abstract effects", note=N_ME),
 dict(id="M04", title="Temporary module files are complete, distinct and outlive the merge tool",
  statement="Every module is written completely to a temporary file of its own before the merge tool starts, and every such file, as well as the output file, still exists until the tool has ended. The output never goes to a file that holds an input module.",
  over=["inputs", "schedules"], **{"for": "every list of modules; all points in time from file creation to the end of the child process"},
  tests="Premature deletion or a short write only shows with particular sizes or timing of a real child process.", files=MG,
  mech=[("temporary files held until the child process ends", "wasm-merge/src/lib.rs MergeOptions::merge")],
  technique=VF + ": typestate of temporary files along the event order (created, written, alive, dropped)", note=N_ME + N_LEN),
 dict(id="M05", title="Module names and paths reach the merge tool uninterpreted",
  statement="The program started for a merge is the merge tool itself, and each namespace and each path is passed as one whole argument of it, whatever characters it contains. No shell or other interpreter gets to see them.",
  over=["inputs"], **{"for": "every namespace and temporary directory name, including ones with blanks, quotes or shell metacharacters"},
  tests="Tests use plain identifiers as namespaces.", files=MG,
  mech=[("process construction", "wasm-merge/src/lib.rs MergeOptions::merge")],
  technique=VF + ": taint of caller data into program name and argument boundaries", note=N_ME),
 dict(id="M06", title="The merged module returned is exactly what the merge tool wrote",
  statement="The bytes returned by a successful merge are the complete content of the file that the merge tool was told to write, read after the tool has ended. Nothing is added, cut or taken from elsewhere.",
  over=["inputs"], **{"for": "every list of modules and every output of the tool"},
  tests="The tests that would see it need the external tool and compare only one output.", files=MG,
  mech=[("read back of the output file", "wasm-merge/src/lib.rs MergeOptions::merge")],
  technique=VF + ": def-use chain from the returned value to the read it comes from", note=N_ME),
 dict(id="W01", title="The aspect language accepts exactly its documented sentences",
  statement="A text is accepted as an aspect, as far as its syntax goes, if and only if it is a sentence of the aspect language: each trap and each apply form in its own shape with its own number and kind of parameters, inside one aspect, with blanks and comments only between tokens. Every other text is rejected.",
  over=["inputs"], **{"for": "every text"},
  tests="Tests parse some twenty fixed programs, mostly valid ones.", files=["wasp-compiler/wasp.pest"],
  mech=[("grammar rules", "wasp-compiler/wasp.pest")],
  technique="grammar analysis: canonical-form equivalence of the compiled-in PEG with a reference grammar, decided by recognisers where the forms differ",
  note="Reads the grammar as compiled into the crate. Equal canonical forms decide it for all texts; when they differ, sentences and near misses separate the two languages (a difference no sentence shows is not reported). Trusted: the reference grammar, derived from the documented one."),
 dict(id="W02", title="Compiling an aspect loses, adds, reorders and renames nothing",
  statement="For every valid aspect, the compiled form holds exactly the advices of the text, in the order of the text, each of its own kind, with its own parameter names in their own roles and its own types and qualifiers.",
  over=["inputs"], **{"for": "every valid aspect: all advice kinds, parameter names, type lists and their combinations"},
  tests="Tests compare a handful of programs with distinct but fixed names; swapped roles in kinds they do not cover pass.", files=WC,
  mech=[("conversion of the parse tree", "wasp-compiler/src/ast/pest.rs, wasp-compiler/src/ast/wasp.rs TryFrom/From impls")],
  technique=VF + " of the compiler on parse trees of abstract sentences", note=N_WC + N_LEN),
 dict(id="W03", title="Ill-formed apply headers are errors that name the fault; nothing else is",
  statement="An aspect is accepted exactly when each apply header uses a matching pair of keywords or supported types, and argument and result names that are pairwise distinct (in a generic header, distinct from the function's name too). Otherwise the result is an error which identifies the fault: the offending identifier, type or position, and of several the first in the text decides.",
  over=["inputs"], **{"for": "every syntactically valid aspect, with any keywords, type names and parameter names in apply headers; every text that does not parse"},
  tests="Tests check one or two faulty headers and mostly that compilation fails, not why.", files=WC + ["wasp-compiler/src/lib.rs"],
  mech=[("header assertions", "wasp-compiler/src/ast/wasp.rs assert_* / assert_unique"), ("error type", "wasp-compiler/src/ast/wasp.rs CompilationError")],
  technique=VF + ": verdict as a function of symbolic keywords, names and types", note=N_WC + N_LEN),
 dict(id="W04", title="The reported join points are exactly those the aspect has advice for",
  statement="For every aspect, a join point is reported as advised if and only if the aspect contains an advice for it, independently of number and order of other advices. The typed call signatures reported are those of the typed apply advices, no more and no fewer.",
  over=["inputs"], **{"for": "every compiled aspect, with advices of all kinds in any number and order"},
  tests="Tests look at the join points of single fixed programs; combinations and omissions per kind are not covered.", files=WC,
  mech=[("collection of join points", "wasp-compiler/src/ast/wasp.rs Root::join_points / JoinPoints::include")],
  technique=VF + ": join-point flags as a function of the advice list, by induction over the list", note=N_WC),
 dict(id="W05", title="Guest code is carried through compilation character for character",
  statement="The guest code of every advice in the compiled aspect is exactly the text between its delimiters, blanks, line breaks, comment-like text, quotes and partial delimiters included.",
  over=["inputs"], **{"for": "every advice kind and every guest text that does not contain the closing delimiter"},
  tests="Tests use bodies without comment-like text or leading and trailing blanks.", files=WC,
  mech=[("guest block rules", "wasp-compiler/wasp.pest"), ("guest code slices", "wasp-compiler/src/ast/pest.rs")],
  technique=VF + " through the grammar recogniser, with guest text as an opaque hole and adversarial samples", note=N_WC),
 dict(id="W06", title="Queries about an aspect's instrumentation groups agree with its advices",
  statement="Asking a compiled aspect whether it instruments applies, branches and selections, or calls answers yes exactly when some advice of the aspect belongs to that group.",
  over=["inputs"], **{"for": "every compiled aspect of any length"},
  tests="Tests ask a few fixed programs.", files=["wasp-compiler/src/ast/wasp.rs"],
  mech=[("group queries", "wasp-compiler/src/ast/wasp.rs Root::instruments_*")],
  technique=VF + ": query results over symbolic advice lists", note=N_WC),
 dict(id="W07", title="Compiling an aspect and inspecting the result never panics",
  statement="No text given to the compiler, and no query on its result, makes it panic: every outcome is a compiled aspect or an error.",
  over=["inputs"], **{"for": "every text; every query on every compiled aspect"},
  tests="Tests only run texts that behave; panics hide in unwraps of tokens for forms they do not use.", files=WC,
  mech=[("expect/unwrap on parse-tree shape guaranteed by the grammar", "wasp-compiler/src/ast/pest.rs")],
  technique=VF + ": reachability of panicking constructs", note=N_WC + N_LEN),
 dict(id="W08", title="Type names denote the WebAssembly types they spell, in both directions",
  statement="Each type name that may be written in an apply header denotes the WebAssembly value type of that name, prints as that name, and every other name is refused.",
  over=["inputs"], **{"for": "every type name, supported or not"},
  tests="Tests use i32 mostly.", files=["wasp-compiler/src/ast/wasp.rs"],
  mech=[("type name parsing and printing", "wasp-compiler/src/ast/wasp.rs WasmType")],
  technique=VF + " of parsing and printing over all names", note=N_WC),
]
IN = "wastrumentation/src/instrument/"
T_CO = "The tests of this crate compile fixtures with external compilers that are absent here, run a few fixed programs, and "
N_CO = ("Decided from the compiler's resolved MIR of the instrumentation crate, compiled against interface stubs of its absent dependencies (module representation and encoder; see DESIGN.md). "
        "Trusted: rustc's MIR, models of the standard library and of that module representation, the abstract stack machine for instruction lists.")
STACK = VF + "; emitted instruction lists run on an abstract operand stack (stack effects and operands as value terms)"

PROPS += [
 dict(id="C01", title="Control-flow hooks run where the control flow they report happens, with its data",
  statement="Instrumenting for a hook on blocks, loops, conditionals, branches, select, drop or return puts into every matching instruction, at any nesting depth, exactly one call of that hook, at the right place (entry or exit of the body, before the branch), with the right operands: condition, label, counts, and the location of the instruction. The original instruction stays, with its type and with what the hook returned as its condition.",
  over=["inputs"], **{"for": "every function body, every kind of control instruction at every nesting depth, with any label, type and location"},
  tests=T_CO + "do not cover nesting, else branches, typed select or multi-value blocks per hook.", files=[IN + "block_loop.rs", IN + "branch_if.rs", IN + "simple_operations.rs"],
  mech=[("injection around control instructions", IN + "block_loop.rs transform, branch_if.rs transform")],
  technique=STACK, note=N_CO),
 dict(id="C02", title="Call hooks run around every call, naming the callee or the table",
  statement="Instrumenting for a call hook puts exactly one call of that hook directly before (pre) or after (post) every direct respectively indirect call of the function, at any depth, with the index of the called function respectively of the table, the table position for the indirect pre hook, and the location. The call itself, its arguments and its results are kept.",
  over=["inputs"], **{"for": "every function body, every direct and indirect call at any nesting depth, every index"},
  tests=T_CO + "use one or two calls at the top level of a function.", files=[IN + "function_call_indirect.rs"],
  mech=[("injection around calls", IN + "function_call_indirect.rs transform")],
  technique=STACK, note=N_CO),
 dict(id="C03", title="Hooks on constants and arithmetic replace exactly the operations of their type",
  statement="Instrumenting for a hook on constants, unary or binary operations hands the hook the constant or the operands in their order, the operation's own code (unique within its kind, and the one the analysis library decodes) and the location, and leaves the hook's result in place of the operation's. This is done for every operation with the hook's operand and result types and for no other.",
  over=["inputs"], **{"for": "every function body and all unary and binary operations and constants at any depth"},
  tests=T_CO + "run a few of the more than 130 operations.", files=[IN + "simple_operations.rs"],
  mech=[("replacement of operations", IN + "simple_operations.rs transform"), ("operation codes", IN + "simple_operations.rs serialize")],
  technique=STACK, note=N_CO),
 dict(id="C04", title="Hooks on locals, globals and memory see every access, its place and its value",
  statement="Instrumenting for a hook on local, global or memory accesses hands the hook the value or address of the access, the index of the variable or the constant offset, for loads and stores the operation's own code (unique, and the one the analysis library decodes), and the location. Reads of variables keep the instruction and pass its value on; writes store what the hook returns; loads, stores, size and grow are left to the hook. This is done for every access of the hook's type and for no other.",
  over=["inputs"], **{"for": "every function body, every variable, memory access, index, offset and value type at any depth"},
  tests=T_CO + "use few of the access forms, with offset zero and small indices.", files=[IN + "memory.rs"],
  mech=[("replacement of accesses", IN + "memory.rs transform"), ("operation codes", IN + "memory.rs serialize")],
  technique=STACK, note=N_CO),
 dict(id="C05", title="A hook leaves alone what it is not about, and what instrumentation itself added",
  statement="Instrumenting for one hook keeps every other instruction of the function once, unchanged and in place, with nested bodies treated the same way. Instructions that an earlier hook added are never instrumented themselves, so hooks can be combined.",
  over=["inputs", "configurations"], **{"for": "every hook, every kind of instruction it is not about, every combination of hooks"},
  tests=T_CO + "rarely combine hooks; loss or repetition of an unrelated instruction shows only in programs that use it.", files=[IN + f for f in ("block_loop.rs", "branch_if.rs", "simple_operations.rs", "function_call_indirect.rs", "memory.rs")] + ["wastrumentation/src/parse_nesting/typed_high_level_body.rs"],
  mech=[("default traversal", IN + "*.rs transform"), ("marks of added instructions", "wastrumentation/src/parse_nesting/typed_high_level_body.rs")],
  technique=STACK, note=N_CO),
 dict(id="C06", title="Exactly the selected functions are instrumented; the rest of the module is kept",
  statement="With a list of target functions only these, without one all functions, are instrumented, save imports and functions with reference types in their signature. Every function keeps its type, name, exports and locals, every other function its code, and the module its other parts. A module that cannot be parsed, converted or encoded yields the error of that stage, never a panic or a module.",
  over=["inputs", "configurations"], **{"for": "every module, every target list, every failing stage"},
  tests=T_CO + "never combine a target list with imports and several functions, nor let a stage fail.", files=[IN + "mod.rs", "wastrumentation/src/error.rs"],
  mech=[("target selection, write-back, error mapping", IN + "mod.rs instrument")],
  technique=VF + " of the whole pipeline on an abstract module of nine functions (defined, imported, with reference types)", note=N_CO + " The module's bodies, names, exports and selection stay symbolic; its number of functions is fixed."),
 dict(id="C07", title="Each requested hook is imported once, under its name and type, and applied once",
  statement="For every subset of the hooks of an analysis, the instrumented module imports precisely the requested hooks, each once, from the analysis namespace under the hook's own name and with its own signature, and each hook's calls go to its own import. Every selected function is transformed for each requested hook exactly once, in an order in which no hook hides an instruction from another.",
  over=["configurations"], **{"for": "every subset of the 75 hooks and every analysis interface"},
  tests=T_CO + "request one hook at a time.", files=[IN + "mod.rs"],
  mech=[("table of hooks and targets", IN + "mod.rs instrument"), ("import of a hook", IN + "mod.rs Instrumentable::install")],
  technique=VF + ": imports and transformation sequence per interface field, alone and in combination", note=N_CO),
 dict(id="C08", title="An applied function gets its own arguments and returns its own results",
  statement="With a generic apply hook, a call of an instrumented function with any signature stores its arguments, calls the hook once with its apply index, function index, argument and result counts, value and type buffers and whether it is imported, and returns the results found in the buffer, after which both buffers are freed. Applying that index calls the original code (or the import) with the stored arguments in order and stores its results. No two functions share an index.",
  over=["inputs", "histories"], **{"for": "every module and selection, every signature without reference types, defined and imported functions, with and without other hooks"},
  tests=T_CO + "use signatures with few and equal types, where swaps do not show.", files=[IN + "function_application.rs", "wastrumentation/src/stack_library.rs"],
  mech=[("generated wrapper, apply function, table and base function", IN + "function_application.rs instrument"), ("imports of the stack library", "wastrumentation/src/stack_library.rs")],
  technique=STACK + " for every function the pipeline generates", note=N_CO + " Decided on a module of nine functions whose signatures cover zero to several parameters and results of different types."),
 dict(id="C09", title="The br_table hook is told the label that the branch would really take",
  statement="For every br_table, the hook receives the index given to the instruction, the label it selects (an entry of the table, or the default when the index is beyond it, read as unsigned), the default label and the location. The instruction then branches on the index the hook returns.",
  over=["inputs"], **{"for": "every branch table of any length, with repeated and equal labels, and every index"},
  tests="The unit tests compare the generated code of three fixed tables with a compiled one and need an external compiler.", files=[IN + "branch_if/generate_branch_table.rs", IN + "branch_if.rs"],
  mech=[("generated lookup function", IN + "branch_if/generate_branch_table.rs reify")],
  technique=STACK + ", split over the cases of the index", note=N_CO + " Tables of 0 to 9 entries with symbolic labels."),
 dict(id="C10", title="The memory operations offered to an analysis do what their names say",
  statement="Every instrumented module exports, each once, the memory operations an analysis may call: every kind of load and store at address plus offset, grow and size. Each has the signature the analysis library declares, performs exactly the operation it is named after on the program's memory, and in a program without memory does nothing but return a neutral value.",
  over=["inputs"], **{"for": "every module with or without memory, every address, offset and value"},
  tests=T_CO + "exercise few widths and signs; a wrong width shows only with particular values.", files=[IN + "memory.rs"],
  mech=[("generated helpers", IN + "memory.rs inject_memory_*")],
  technique=STACK, note=N_CO + " Address arithmetic is compared as the generated code defines it (32-bit addition)."),
 dict(id="C13", title="Wastrumenting compiles, instruments and links the right parts",
  statement="Wastrumenting compiles the analysis from its own source with the analysis compiler, instruments the input program with the analysis' interface and the selected functions, compiles the generated stack library (if there is one) with the other compiler, and links these modules, each exactly once and under the namespace its importers use, with the selected one primary, with several memories allowed and conflicting exports renamed rather than refused, the program's exports taking precedence over the analysis'. A failing step makes the whole fail with the error of that step, carrying its cause. A compiler compiles exactly the source it is given; setting up or running a compiler that fails is an error with its cause.",
  over=["inputs", "configurations", "fault_sequences"], **{"for": "every input, analysis, primary selection, with or without stack library, and a failure of any step"},
  tests=T_CO + "use no primary selection and no failing step.", files=["wastrumentation/src/lib.rs", "supported-languages/rust/src/compile/compiler.rs", "supported-languages/webassembly/src/compile/compiler.rs", "supported-languages/assemblyscript/src/compile/compiler.rs"],
  mech=[("pipeline", "wastrumentation/src/lib.rs wastrument, merge")],
  technique=VF + "; the steps are symbols that record what they are given", note=N_CO + " The compilers themselves are external."),
 dict(id="C14", title="A request for hooks asks for exactly their traps, under their published names",
  statement="The interface made of a set of requested hooks (Rust and WebAssembly analyses) contains exactly the traps of those hooks, each with the export name, parameters and results that analyses are written against; the union of the hooks for several, nothing for none. The set of all hooks contains every hook.",
  over=["inputs", "configurations"], **{"for": "every set of hooks"},
  tests=T_CO + "request few sets, and the names are matched only when a linked module runs.", files=["supported-languages/rust/src/generate/analysis/mod.rs", "supported-languages/webassembly/src/generate/analysis/mod.rs", "wastrumentation/src/analysis/mod.rs"],
  mech=[("interface of hooks", "supported-languages/rust/src/generate/analysis/mod.rs interface_from"), ("names and types", "wastrumentation/src/analysis/mod.rs simple_interfaces!")],
  technique=VF, note=N_CO + " Sets decided: none, each hook, all but each, all; the published names and types are a table in the check."),
 dict(id="C15", title="The command line passes on what the user asked for, and writes all of the result",
  statement="The command line instruments the content of the given input with the analysis of the given manifest, for the given target functions and exactly the hooks named (all hooks when none are), and writes the complete result to the given output. It never reports success when reading, compiling, instrumenting or writing failed.",
  over=["inputs", "configurations", "fault_sequences"], **{"for": "every combination of arguments and a failure of any step"},
  tests="There is no test of the command line.", files=["cli/src/main.rs"],
  mech=[("entry point", "cli/src/main.rs main")],
  technique=VF, note=N_CO + " The argument parser generated by clap is trusted."),
 dict(id="C16", title="Every error message tells its cause",
  statement="The message (or the source) of every error of the merge, of the wasp compiler and of the instrumentation contains every value the error carries: the operating system's or tool's reason, the offending names, the parser's complaint.",
  over=["inputs", "fault_sequences"], **{"for": "every error and every cause it can carry"},
  tests="The tests compare one or two messages.", files=["wasm-merge/src/error.rs", "wasp-compiler/src/error.rs", "wastrumentation/src/error.rs", "wastrumentation/src/parse_nesting/typed_high_level_body_error.rs"],
  mech=[("messages", "wastrumentation/src/error.rs")],
  technique=VF, note="Decided from the resolved MIR of the Display and Error implementations of every variant, with symbols for what it carries."),
 dict(id="C11", title="Flat and structured function bodies carry the same program",
  statement="Structuring a flat, well-nested instruction list yields the tree of its nesting: every instruction in its place with its operands, each block, loop, if and else arm with its own body, every node with its function, the index of its (opening) instruction in the flat list and its inferred type. Flattening any structured body gives the list back, with every block closed and the final end. Ill-nested lists and bodies the type checker refuses are not structured.",
  over=["programs"], **{"for": "every function body"},
  tests="The tests round-trip a few small bodies.", files=["wastrumentation/src/parse_nesting/typed_high_level_body.rs", "wastrumentation/src/parse_nesting/typed_indexed_instr.rs", "wastrumentation/src/parse_nesting/high_level_body.rs"],
  mech=[("structuring", "wastrumentation/src/parse_nesting/typed_high_level_body.rs"), ("type inference", "wastrumentation/src/parse_nesting/typed_indexed_instr.rs")],
  technique=VF, note="Decided by evaluating the resolved MIR on flat bodies with every instruction kind (symbolic operands) and every nesting of two levels; the type checker of wasabi is a symbol for the type after a prefix of the body."),
 dict(id="C17", title="Functions reported immutable touch nothing but their locals",
  statement="The static analysis reports a function only if it has a body, no instruction of it (at any nesting depth) reads or writes a global, a table or a memory or calls indirectly, and it calls only itself and functions that satisfy the same; it does report every such function whose calls (other than to itself) do not form a cycle. The tool writes exactly these, minus the ones with fewer instructions than asked for, completely, to its output and prints nothing else there; a failed read, parse or write is not reported as success.",
  over=["programs", "fault_sequences"], **{"for": "every module and call graph"},
  tests="The analysis has no tests.", files=["wastrumentation-static-analysis/src/lib.rs", "wastrumentation-static-analysis/src/main.rs"],
  mech=[("the analysis", "wastrumentation-static-analysis/src/lib.rs"), ("its command line", "wastrumentation-static-analysis/src/main.rs")],
  technique=VF, note="Decided by evaluating the resolved MIR on modules with every instruction kind at every place of a body and on call graphs with imports, chains, cycles and diamonds; the reported set is compared with the least and greatest solutions of the definition."),
 dict(id="C12", title="The stack library keeps each call's arguments, results and types apart and safe",
  statement="For the numeric types of functions that are instrumented, and no others, a stack library is generated and linked: all functions an instrumented module imports are exported by it under their own names and with their types. In each of the three stack libraries (WebAssembly, AssemblyScript, Rust), storing or allocating with a value and loading it gives the value back, by name and through the published slots (results first, then arguments), and disturbs no other slot; the types buffer has the code of each type; an allocation covers its slots, lies inside the memory, which is grown as needed, and overlaps nothing that is allocated; freeing gives back exactly what was allocated. No function traps, but for an allocation when the memory cannot grow.",
  over=["inputs", "histories"], **{"for": "every set of signatures of numeric types, all values, any state of the memory"},
  tests="The tests compare generated text and run a few programs.", files=["wastrumentation/src/stack_library.rs", "supported-languages/webassembly/src/generate/instrumentation/mod.rs", "supported-languages/assemblyscript/src/generate/instrumentation/mod.rs", "supported-languages/assemblyscript/src/generate/instrumentation/lib_boilerplate.ts", "supported-languages/rust/src/generate/instrumentation/mod.rs"],
  mech=[("imports of an instrumented module", "wastrumentation/src/stack_library.rs"), ("generated WebAssembly", "supported-languages/webassembly/src/generate/instrumentation/mod.rs"), ("generated AssemblyScript", "supported-languages/assemblyscript/src/generate/instrumentation/mod.rs"), ("generated Rust", "supported-languages/rust/src/generate/instrumentation/mod.rs")],
  technique=VF + "; the generated libraries are analysed in turn (WebAssembly text and AssemblyScript parsed, Rust compiled to MIR) with symbolic values, memory and allocations", note="The generators are decided on a family of signatures that has every type on both sides, up to 12 values, alone, together and repeated; the generated code is decided for all values. wee_alloc is a stub with its contract; 32-bit address overflow is not modelled; reference types are outside (the generators do not support them)."),
 dict(id="C18", title="An aspect's AssemblyScript analysis provides the traps its interface asks for",
  statement="The analysis generated from an aspect (untyped apply, if_then, if_then_else, br_if, br_table, select, call, call_indirect, block and loop advice, in any combination and order) asks for exactly the traps of its advices, and its AssemblyScript text exports exactly these, each under the published name with the published parameter and result types, and declares everything it uses once. The guest code of an advice is in its own trap, unaltered and on lines of its own; global advices are there, in order. Through the names the advice gives them, guest code sees: the condition of an if, br_if or select (is_then/is_skip/is_else/is_branch true exactly if it is the path that would be taken; continue_* the value that takes that path), the label of a br_if, the target index and the default of a br_table, the callee of a call, the index and the table of an indirect call. If it returns a value, that is the value of the trap, otherwise the trap returns the value it was called with. In an apply advice, get, set and getType of arguments and results concern exactly the slot of that index (results first, arguments behind) through the stack library, with the type asked for, and trap for an index out of bounds before touching anything; length is their number, apply() resumes the call being made, instr_f_idx is the function's index. An aspect that does not compile gives the compiler's error.",
  over=["programs", "inputs"], **{"for": "every aspect without typed apply advice, names and guest code, and every trap argument"},
  tests="The tests compare the text of a few traps and need network access to run any.", files=["supported-languages/assemblyscript/src/generate/analysis/mod.rs", "supported-languages/assemblyscript/src/generate/analysis/wasp.rs", "supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_gen_apply.ts", "supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_if.ts", "supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_call.ts"],
  mech=[("interface", "supported-languages/assemblyscript/src/generate/analysis/wasp.rs"), ("traps", "supported-languages/assemblyscript/src/generate/analysis/mod.rs"), ("objects of the guest code", "supported-languages/assemblyscript/src/generate/analysis/std_analysis_lib_gen_apply.ts, std_analysis_lib_if.ts, std_analysis_lib_call.ts")],
  technique=VF + "; the generated AssemblyScript is parsed and its traps followed symbolically", note="Guest code and names are symbols of the generated text; the text around them is constant, so that probing guest code in their place decides what any guest code sees. Aspects are every form alone, every ordered pair, all, and all but one. Names the advice gives must differ from those of the trap's own parameters. Typed apply advice is not implemented for AssemblyScript (todo!()) and excluded."),
 dict(id="C19", title="Instrumenting a valid module never aborts",
  statement="For every valid WebAssembly module with at most one memory, every combination of requested hooks and every selection of functions, instrumentation (structuring the bodies, the transformations, generic apply, generating the stack library in any of the three languages) ends with a module or an error value and never panics, whatever the module holds: any number of functions (none included), parameters and results, locals, tables and br_table entries, any nesting, label and index, up to the limits of WebAssembly. The same holds for the search for functions that touch only their locals. No count, label or index is narrowed to a type that does not hold all it can be.",
  over=["inputs", "programs"], **{"for": "every valid module with at most one memory, interface and selection"},
  tests="The tests instrument a handful of small modules.", files=["wastrumentation/src/instrument/mod.rs", "wastrumentation/src/instrument/block_loop.rs", "wastrumentation/src/instrument/branch_if.rs", "wastrumentation/src/instrument/branch_if/generate_branch_table.rs", "wastrumentation/src/instrument/function_application.rs", "wastrumentation/src/parse_nesting/high_level_body.rs", "wastrumentation/src/parse_nesting/typed_high_level_body.rs", "wastrumentation/src/stack_library.rs", "wastrumentation-static-analysis/src/lib.rs"],
  mech=[("the pipeline", "wastrumentation/src/instrument/mod.rs"), ("transformations", "wastrumentation/src/instrument/"), ("structuring", "wastrumentation/src/parse_nesting/"), ("stack library", "wastrumentation/src/stack_library.rs, supported-languages/*/src/generate/instrumentation/mod.rs"), ("immutable functions", "wastrumentation-static-analysis/src/lib.rs")],
  technique=VF + "; every panic site met is kept with its path condition and judged", note="A panic is a violation when its path condition speaks of kinds of things and of single quantities only and has an instance within WebAssembly's limits (quantities are tried at the bounds of the integer types and of the constants compared with). Panics under other conditions (relations between two quantities, results of look-ups) are left open and counted in the evidence. Sums in machine words are taken not to overflow; exhaustion of memory or stack is outside."),
]
NA = []
NOTES = "All checks are static analyses of the compiler's MIR of /repo's current sources (plus the grammar text compiled into the crate); nothing of /repo is executed. See DESIGN.md."
