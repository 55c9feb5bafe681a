#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
VM = ["src/vm/vm.c", "src/vm/vm.h"]
TESTS = "The suite runs two fixed .qvm files (compiled C test code) and a handful of broken headers; "

p("V01", "Every bytecode instruction computes its documented result",
  "For every opcode and every operand value for which the result is defined, executing the instruction yields the documented 32-bit result (two's complement integer arithmetic modulo 2^32, signed and unsigned comparisons, divisions and shifts, sign extensions, IEEE-754 single precision arithmetic, comparisons and conversions), pops and pushes the documented number of stack items, and changes no memory other than what a store instruction names. Branches are taken exactly when their relation holds.",
  ["inputs", "programs"], "all opcodes x all operand words x all operand-stack depths, in any instruction context",
  TESTS + "they touch a few operand values per opcode and never compare intermediate results.",
  VM, [("main interpreter loop, one label per opcode", "src/vm/vm.c:VM_CallInterpreted"), ("r0/r1 cached top of stack", "src/vm/vm.c:DISPATCH")],
  [("opStack/opStackOfs", "operand stack, 256 words, wrapping index", "VM_CallInterpreted")],
  ["values passed to the system call callback", "return value of VM_Call", "data segment contents"])
p("V02", "Bytecode can never touch memory outside its own data segment",
  "Whatever bytecode a loaded module contains and whatever addresses, lengths and stack pointers it computes, executing it reads and writes only the module's own data allocation (and the interpreter's private state): no access to any other host memory ever happens. Block copies whose source or destination range does not lie inside the segment change nothing and are reported.",
  ["programs", "inputs"], "all programs, all 32-bit addresses, block lengths and frame sizes, data segment sizes, call depths",
  TESTS + "no test program issues a wild address, and a stray access would have to crash to be noticed.",
  VM, [("address & dataMask, 4 guard bytes after the segment", "src/vm/vm.c:VM_CallInterpreted, VM_LoadQVM"), ("VM_BlockCopy range check", "src/vm/vm.c:VM_BlockCopy")],
  [("dataBase/dataMask/dataAlloc", "sandbox memory", "vm_t"), ("programStack", "guest stack pointer", "vm_t")],
  ["Com_malloc'd data block and its surroundings (inaccessible pages)", "Com_Error callback"])
p("V03", "Bytecode can only transfer control to its own instructions",
  "Every jump, branch, call and return performed by bytecode continues at an instruction of the loaded module, at the host callback (negative call targets), or ends the call with a reported error and result -1; no program makes the interpreter fetch instructions or operands from outside the module's code. Falling off the end of the code and corrupted return addresses are covered too.",
  ["programs", "inputs"], "all programs and all 32-bit jump/call/return targets",
  TESTS + "only compiler-generated control flow is executed.",
  VM, [("instructionPointers table and bounds checks in CALL, LEAVE, JUMP", "src/vm/vm.c:VM_CallInterpreted"), ("branch target validation at load", "src/vm/vm.c:VM_PrepareInterpreter")],
  [("codeBase/codeLength/instructionCount", "expanded code", "vm_t")], ["Com_Error callback", "VM_Call result", "crash of the host"])
p("V04", "No arithmetic performed by bytecode terminates the host",
  "Integer division or remainder by zero, division of the most negative integer by -1, oversized shifts, float overflow, NaNs and out-of-range float-to-int conversions executed by bytecode never stop or crash the host process. Division and remainder by zero end the call with an error reported to the host and result -1, and the host can keep using the module.",
  ["inputs", "programs"], "all operand pairs of all arithmetic opcodes",
  TESTS + "no test divides by zero or by -1.",
  VM, [("division opcodes", "src/vm/vm.c:goto_OP_DIVI..goto_OP_MODU"), ("float conversion", "src/vm/vm.c:goto_OP_CVFI")], (), ["signals received by the host process", "Com_Error callback"])
p("V05", "Malformed images are always rejected cleanly, well-formed ones accepted",
  "For every byte string and every length, creating a VM either succeeds, exactly when the header has the right magic, its fields are in range, all segments lie inside the given image, and every instruction decodes inside the code segment with a known opcode and an in-range branch target, or fails with -1, an error reported through the error callback, and nothing left allocated. Loading never reads outside the image, never writes to it and never writes outside its allocations.",
  ["inputs"], "all images and lengths, in particular every header field value, truncations and instruction encodings",
  TESTS + "about ten hand-corrupted headers are tried, all without integer overflow and without truncated code.",
  VM, [("header validation", "src/vm/vm.c:VM_LoadQVM"), ("instruction decoding and branch validation", "src/vm/vm.c:VM_PrepareInterpreter")],
  [("vmHeader_t", "image header", "src/vm/vm.h")], ["VM_Create result", "Com_Error/Com_malloc/Com_free callbacks", "image bytes"])
p("V06", "A loaded module starts from exactly the image's initial state",
  "After a successful load the module's memory is the image's data and literal segments in order followed by zeros, its size is the smallest power of two covering data, literals and bss, execution starts at the first instruction, operands are decoded little endian and branch, jump and call targets name instruction numbers. Unaligned placement of the image and of its segments makes no difference.",
  ["inputs", "configurations"], "all valid images: segment lengths, offsets, gaps, overlapping segments, image alignment",
  TESTS + "both images have the same layout (code first, data right after).",
  VM, [("segment copy, zero fill, rounding", "src/vm/vm.c:VM_LoadQVM"), ("two-pass expansion", "src/vm/vm.c:VM_PrepareInterpreter")],
  [("dataBase/dataMask", "sandbox memory", "vm_t")], ["memory visible to a system call right after VM_Create", "VM_ArgPtr"])
p("V07", "VM_Call passes command and arguments, and returns the guest's result",
  "A call enters the module at its first instruction with the command and up to twelve further integer arguments readable as the parameters of the guest's entry function, and returns the value the guest's entry function leaves behind. Guest memory, except the stack area below the frame, persists from one call to the next, and the guest stack pointer is the same before and after every call.",
  ["inputs", "histories"], "all argument vectors, all sequences of calls",
  TESTS + "calls with one argument pattern are made, and results compared for two commands.",
  VM, [("frame set up: 8 bytes linkage, 13 words of arguments", "src/vm/vm.c:VM_CallInterpreted"), ("varargs collection", "src/vm/vm.c:VM_Call")],
  [("programStack", "guest stack pointer between calls", "vm_t")], ["VM_Call result", "guest values seen by the system call callback"])
p("V08", "System calls deliver number, arguments and result unchanged",
  "A guest call to a negative address -1-n invokes the host callback exactly once, with n and the guest's up to fifteen argument words, in program order; the callback's result (low 32 bits) becomes the value of the call expression in the guest, the guest's frame, operand stack and memory are otherwise untouched, and execution continues right after the call. This also holds when the callback modifies guest memory, calls back into this or another VM, or fails.",
  ["programs", "inputs", "histories"], "all call numbers, argument vectors, callback results, stack depths and nesting patterns",
  TESTS + "the tests use a few system calls with at most four arguments.",
  VM, [("OP_CALL negative target path, argarr", "src/vm/vm.c:goto_OP_CALL")], [("programStack", "published so that nested calls build below it", "vm_t")], ["host callback arguments"])
p("V09", "Calls may nest, and a failed call leaves the VM usable",
  "A host callback may call into the same VM to any depth: each nested call runs in its own frame below the caller's, and the interrupted guest function resumes with its locals, operand stack and arguments intact. When a call ends with an error (at any nesting depth), it returns -1, the guest stack pointer and the running state are as before the call, and later calls behave as if the failed one had only executed its completed memory writes.",
  ["histories", "fault_sequences"], "all interleavings of nested calls, failures and retries",
  TESTS + "one recursive call without a failure is made.",
  VM, [("programStack saved on entry and published around system calls", "src/vm/vm.c:VM_CallInterpreted"), ("callLevel", "src/vm/vm.c:VM_Call")],
  [("programStack", "guest stack pointer", "vm_t"), ("callLevel", "nesting depth", "vm_t"), ("currentlyInterpreting", "running flag", "vm_t")], ["results and memory after sequences of calls"])
p("V10", "VM lifecycle: every operation in every state is defined and balanced",
  "In every sequence of create, call and free operations, including allocation failures at any point and use of NULL, never-created, failed or freed VMs, each operation returns the documented result and reports the documented error; a VM that is running cannot be freed, and every block obtained from the allocation callback is returned to the free callback exactly once, with the same VM and purpose. Freeing twice is harmless.",
  ["histories", "fault_sequences"], "all finite sequences of API operations over several VMs (each VM freed before it is created again) with allocation failures at every allocation",
  TESTS + "each allocation failure is injected once, and two or three short histories are run.",
  VM, [("VM_Create error exits", "src/vm/vm.c:VM_Create"), ("VM_Free and callLevel guard", "src/vm/vm.c:VM_Free"), ("not-loaded guard", "src/vm/vm.c:VM_Call")],
  [("codeBase/dataBase/instructionPointers", "owned allocations", "vm_t"), ("callLevel", "running depth", "vm_t")], ["Com_malloc/Com_free/Com_Error callbacks", "results"])
p("V11", "Host-side address translation and range checks are exact",
  "Translating a guest address yields NULL for 0 and otherwise a host pointer inside that VM's segment that aliases the guest address (modulo the segment size). The range check accepts an address and length only if every byte of the range lies in the segment, for every 64-bit address and length, and accepts every nonempty range that ends before the segment's last byte; the float/int reinterpretation helpers are exact bit-for-bit inverses.",
  ["inputs"], "all addresses and lengths including negative, huge and wrapping ones, all segment sizes",
  TESTS + "three valid/invalid range examples are tried.",
  VM, [("VM_ArgPtr masking", "src/vm/vm.c:VM_ArgPtr"), ("VM_MemoryRangeValid", "src/vm/vm.c:VM_MemoryRangeValid"), ("VM_IntToFloat/VM_FloatToInt", "src/vm/vm.c")], [("dataMask", "segment size - 1", "vm_t")], ["results of VM_ArgPtr, VM_MemoryRangeValid, VMA, VMF"])
p("V12", "All interpreter build variants behave identically",
  "The interpreter built with computed gotos, with a plain switch, with the debug checks enabled, and at different optimisation levels produces the same observable behaviour (system calls, results, errors, memory) for every program that performs no operation with an unspecified result and respects the stack and alignment limits the debug build enforces.",
  ["configurations", "programs"], "all programs x {computed goto, switch, DEBUG_VM} x optimisation levels",
  "The suite builds exactly one variant per run; the variants are never compared.",
  VM, [("USE_COMPUTED_GOTOS dispatch table and the goto_ case labels", "src/vm/vm.c"), ("DEBUG_VM blocks", "src/vm/vm.c")], (), ["event logs of each build"])
p("V13", "VM instances are isolated and executions are deterministic",
  "The observable behaviour of a module is a function of its image, the calls made and the system call results alone: running other VMs before, after or inside (nested through callbacks), creating or freeing them, or whatever the host's memory and stack contain, has no influence. No uninitialised or foreign host memory ever becomes visible to a guest.",
  ["histories", "schedules", "programs"], "all interleavings of operations on several VMs, all prior contents of host memory",
  TESTS + "only one VM exists at a time.",
  VM, [("all state in vm_t, operand stack per call", "src/vm/vm.c"), ("zero filled data segment", "src/vm/vm.c:VM_LoadQVM")], [("vm_t", "complete VM state", "src/vm/vm.h")], ["event logs with painted stacks/heaps and interleaved VMs"])
p("V14", "Debug-build safety checks fire exactly on their violations",
  "In a debug build, a program whose stack pointer leaves the reserved stack, whose stack pointer is misaligned, or that loads a word from a misaligned address is stopped at that instruction with the corresponding error and result -1, and a program that never does so runs exactly as in a release build.",
  ["programs"], "all programs, recursion depths and frame sizes",
  "The suite never builds with DEBUG_VM.",
  VM, [("DEBUG_VM checks in the dispatch loop", "src/vm/vm.c:VM_CallInterpreted")], [("stackBottom", "lowest legal stack pointer", "vm_t")], ["Com_Error callback", "VM_Call result"])
p("V15", "Debug symbols, profile and trace attribute execution to functions",
  "In a debug build the map file next to a module's image (the module's path with its extension replaced by .map) is read when the module is created, and its code symbols name the module's functions from their first instruction on. The profile report lists every function once, with the number of instructions executed in it since the previous report (an activation is in the function it was started in, entered or returned to last, so the instruction that enters a function counts for its caller) and their share of the total in whole percent, in ascending order, and then the total. The debug trace names every instruction executed, function entered, returned to and system call made, in order. A missing, truncated or malformed map file, a failed allocation for symbols or reports, and tracing never affect execution, and all memory obtained for symbols and reports is returned.",
  ["programs", "inputs", "histories"], "all map files, all executions and all sequences of calls and reports",
  "The suite never builds with DEBUG_VM.",
  VM, [("VM_LoadSymbols, VM_ValueToFunctionSymbol, VM_VmProfile_f, VM_Debug", "src/vm/vm.c")], [("symbols", "symbol list with counters", "vm_t")], ["VM_VmProfile_f output", "VM_Debug output", "Com_malloc, Com_free, Com_Error callbacks"])
p("H01", "The standalone host maps results and failures to exit status and output",
  "The standalone interpreter loads the named image, runs its entry function once with command 0 and prints, after its own messages about loading, exactly the bytes of the zero-terminated strings the guest passes to the print system call on standard output and to the error system call on standard error, in order, also when the run ends with a failure later. When the entry function returns normally the exit status is the low byte of its result. Any other end exits nonzero without crashing: a missing argument, a file that is missing, unreadable, empty, oversized or malformed, and a guest failure, which is reported on standard error. The memset and memcpy system calls do to guest memory what their C namesakes do and return the destination; ranges that are not inside the guest's memory end the run with a failure (null pointers are ignored), an unknown system call is reported on standard error and returns 0, and no system call ever accesses anything but guest memory.",
  ["inputs", "programs"], "all files, all guest programs, all system call arguments",
  TESTS + "one program is run and only its exit status compared.",
  ["src/main.c"], [("loadImage", "src/main.c"), ("systemCalls dispatcher with range checks", "src/main.c:systemCalls"), ("exit status", "src/main.c:main")], (), ["process exit status, stdout, stderr"])

ASM = ["q3asm/q3asm.c", "q3asm/cmdlib.c", "q3asm/opstrings.h"]
NOASM = "The repository has no assembler tests: test.qvm and bytecode.qvm are prebuilt or built once and only executed; "
p("A01", "The assembler emits exactly the encoded program",
  "Every instruction statement is encoded as its documented opcode byte followed by its little endian operand (one byte for the argument store instruction, four for others that take one), in source order, and every data statement emits its value at the documented width, alignment and byte order. The output image is exactly header, code, data and literals, and carries the true instruction count and segment lengths.",
  ["programs", "inputs"], "all assembly programs: every opcode, operand expression and data directive",
  NOASM + "an encoding error in an unused opcode or directive stays invisible.",
  ASM, [("AssembleLine/opcode table", "q3asm/q3asm.c"), ("EmitByte/EmitInt", "q3asm/q3asm.c"), ("WriteVmFile", "q3asm/q3asm.c")], [("segment_t image/imageUsed", "output segments", "q3asm/q3asm.c")], ["bytes of the .qvm written"])
p("A02", "Symbols resolve to the one definition that linking rules select",
  "Every reference to a symbol, forward or backward, within or across files, is replaced by the value of its unique definition: the instruction number for code labels, the final address for data, literal and bss labels and the assigned value for equates, and an expression symbol-or-number followed by added or subtracted numbers gets the arithmetically correct 32-bit value. Compiler-local labels are private to their file.",
  ["programs"], "all sets of files, symbol names (any length, common prefixes, hash collisions) and reference orders",
  NOASM + "one link order of three files is used.",
  ASM, [("two passes, DefineSymbol/LookupSymbol, per-file local prefix", "q3asm/q3asm.c"), ("hash table", "q3asm/q3asm.c")], [("symbols", "symbol list", "q3asm/q3asm.c")], ["operand values in the .qvm"])
p("A03", "Erroneous assembly never yields a usable-looking image",
  "Unknown instructions or directives, undefined or multiply defined symbols and unreadable inputs make the assembler report the problem and exit with a nonzero status without writing an image; error-free input makes it exit zero with an image. No input makes it crash or hang.",
  ["programs", "inputs", "fault_sequences"], "all erroneous inputs, every position of the error",
  NOASM + "no erroneous input is tried.",
  ASM, [("errorCount and CodeError", "q3asm/q3asm.c"), ("Error", "q3asm/cmdlib.c")], (), ["exit status", "existence and contents of output file"])
p("A04", "Segment layout is disjoint, ordered and carries the reserved stack",
  "Data, literal and bss objects are laid out in disjoint, consecutive address ranges in order of definition, each aligned as its directives ask, and the bss segment ends with the 64 KiB program stack. The image of any error-free program with at least one instruction is accepted by the loader, which then shows every object at the address its symbol resolved to.",
  ["programs"], "all mixes of segments, directives, alignments and files",
  NOASM + "a misplaced object shows only if the test happens to read it.",
  ASM + VM, [("segmentBase computation, stack reservation", "q3asm/q3asm.c:Assemble, WriteVmFile"), ("HackToSegment", "q3asm/q3asm.c")], [("segment[]", "segments", "q3asm/q3asm.c")], [".qvm header", "memory after VM_Create"])
p("A05", "The map file lists every global symbol with its final value",
  "When a map file is requested, it contains one line per defined non-local symbol (with the two program stack bounds) giving its segment number and its value within that segment, sorted by segment and value, and nothing else; symbol tools and the debug interpreter can rely on it.",
  ["programs"], "all programs", NOASM + "no map file is inspected.",
  ASM, [("WriteMapFile, sorting", "q3asm/q3asm.c")], (), [".map file"])
p("A06", "Assembler options never change the generated program",
  "The symbol hash table size, verbosity, list files versus command line files and the output location affect neither the code and data emitted nor acceptance of the input; identical inputs give byte-identical outputs every time.",
  ["configurations", "programs"], "all option combinations x all programs", NOASM + "one option set is used.",
  ASM, [("ParseOptionFile, -b hash table, -v, -f, -o", "q3asm/q3asm.c:main")], (), ["bytes of the .qvm"])

LCC = ["lcc/src", "lcc/etc"]
NOLCC = "The compiler is only exercised by compiling the fixed example and test program, "
p("L01", "Compiled integer expressions have their C values",
  "For every valid C program, integer expressions over all integer types (char, short, int, signed, unsigned, enum, bit-fields), with usual conversions, all operators, assignments, increments and any mix of constants and variables, evaluate at run time to the value the C language defines, whether folded by the compiler or computed by the bytecode.",
  ["programs", "inputs"], "all well-defined expressions and operand values",
  NOLCC + "which uses few operators, and never compares folded with computed values.",
  LCC + ["src/vm/vm.c"], [("type conversion and tree building", "lcc/src/enode.c, expr.c, tree.c"), ("constant folding", "lcc/src/simp.c"), ("DAG building and code emission", "lcc/src/dag.c, bytecode.c")], (), ["values emitted by the compiled program"])
p("L02", "Compiled control flow follows C semantics",
  "In every valid program, if/else, loops, break, continue, switch (any case set, order, fallthrough, default, sparse or dense), goto, conditional, comma and short-circuit operators and returns execute exactly the statements, in exactly the order, with the side effects that C prescribes.",
  ["programs"], "all statement nestings and branch conditions",
  NOLCC + "with simple loops and no dense or sparse switches.",
  LCC, [("statement translation", "lcc/src/stmt.c"), ("boolean code generation", "lcc/src/expr.c, simp.c, dag.c")], (), ["values emitted by the compiled program"])
p("L03", "Compiled aggregates, pointers and memory accesses obey C layout",
  "Arrays, structs, unions, bit-fields, nested aggregates and pointers to them have the documented sizes, offsets and alignment, pointer arithmetic and comparison, indexing, member access, struct assignment and by-value passing move exactly the bytes of the named object, and no store changes a neighbouring object.",
  ["programs", "inputs"], "all aggregate types and access paths",
  NOLCC + "with hardly any structs.",
  LCC, [("type layout", "lcc/src/types.c, decl.c"), ("field/indirection/ASGNB", "lcc/src/enode.c, expr.c, dag.c, bytecode.c")], (), ["values emitted by the compiled program"])
p("L04", "Compiled functions, recursion and calls obey C semantics",
  "Parameters of every type and number are passed and returned unchanged, recursion and mutual recursion keep each activation's locals separate, calls through function pointers reach the designated function, variadic-style argument access sees the arguments in order, nested calls as arguments do not disturb outstanding arguments, and struct-valued functions return complete values.",
  ["programs"], "all call graphs, signatures and nestings of calls",
  NOLCC + "with fib() and a few fixed signatures.",
  LCC, [("calls and arguments", "lcc/src/expr.c, dag.c, bytecode.c (ARG offsets, frame layout)")], (), ["values emitted by the compiled program"])
p("L05", "Static initialisers and linkage give objects their initial values",
  "Objects with static storage, in any number of files, start with exactly the values of their initialisers (scalars except 16-bit integers, which are refused, strings, nested braces, designated addresses plus offsets, partial initialisation with zeros), tentative and extern declarations denote one object per program, and file- and function-scope statics stay private and persistent.",
  ["programs"], "all static initialisers and multi-file programs",
  NOLCC + "with one initialised global.",
  LCC + ASM, [("initialisers", "lcc/src/init.c"), ("segment switching and defconst/defaddress/defstring/space", "lcc/src/bytecode.c"), ("LIT/DATA separation", "q3asm/q3asm.c:HackToSegment")], (), ["values emitted by the compiled program"])
p("L06", "Compiled float code follows IEEE single precision",
  "Float expressions, comparisons, conversions between float and integer types and float arguments, returns and constants produce the IEEE single precision results, whether evaluated by the compiler or at run time (not specified, as in C89: the order of a NaN and a number, and the bits of a NaN).",
  ["programs", "inputs"], "all float expressions and values", NOLCC + "with one float loop.",
  LCC + ["src/vm/vm.c"], [("float constant folding and emission", "lcc/src/simp.c, bytecode.c"), ("float opcodes", "src/vm/vm.c")], (), ["values emitted by the compiled program"])
p("L07", "Invalid programs are diagnosed where they go wrong, valid ones compile",
  "A translation unit that violates a C constraint the compiler is specified to diagnose (syntax errors, undeclared identifiers, incompatible types, duplicate definitions, labels or case values, bad lvalues, assignments to const, misplaced statements, initialisers that do not fit, non-constant expressions where constants are required) is diagnosed: the first error message names the file and the line at which the first violation becomes apparent, and the compiler and the driver exit nonzero. Every valid unit compiles without an error message and exits zero, whatever warnings are requested; no input makes the compiler crash or hang, before or after a diagnostic.",
  ["programs", "inputs"], "all invalid programs and mutations of valid ones", NOLCC + "and only valid input is tried.",
  LCC, [("error()/errcnt", "lcc/src/error.c, main.c"), ("driver exit status and rm of temporaries", "lcc/etc/lcc.c")], (), ["exit status, stderr, output file"])
p("L08", "The driver turns a command line into the right phases and never changes program meaning",
  "Compiling through the driver with or without debug information, from one or several files, with macros defined on the command line or in the source, with include paths given in any of the supported ways and via intermediate preprocessed or assembly files, gives programs with identical behaviour. For every command line the preprocessor and the compiler are run for each source file in order with the options meant for them in the order given, a phase is not run when the one before it failed for that file while the remaining files are still processed, the output goes to the file named by -o (if it applies) or to the source's name with suffix .asm, the exit status is zero exactly when every phase succeeded (neither exited nonzero nor was killed) and every named file was found, and no temporary file is left behind.",
  ["configurations", "programs"], "all option combinations, file sets, phase failures", NOLCC + "with one option set; the driver is never run with a failing phase.",
  LCC + ["lcc/cpp"], [("option handling and phases", "lcc/etc/lcc.c, bytecodelcc.c"), ("temporaries and signals", "lcc/etc/lcc.c:rm/interrupt")], (), ["commands run", "exit status", "files left", "assembly and images produced"])
CPP = ["lcc/cpp"]
p("P01", "Conditional inclusion keeps exactly the selected groups",
  "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif, the output contains the tokens of exactly the first group whose condition holds in each section, skipped groups have no effect at all (no definitions, inclusions or errors from their contents), and unbalanced or misplaced directives are diagnosed with nonzero exit.",
  ["inputs", "programs"], "all nestings of conditionals, definitions and conditions", "No preprocessor test exists; the two sample programs use include guards only.",
  CPP, [("ifdepth/ifsatisfied stack and skipping", "lcc/cpp/cpp.c:control")], [("skipping/ifsatisfied", "conditional stack", "lcc/cpp/cpp.c")], ["preprocessor output and exit status"])
p("P02", "Macro expansion yields the token sequence the C standard defines",
  "Object-like and function-like macros, with arguments, stringizing, token pasting, nesting, self reference, redefinition and undefinition, rescanning and predefined names, expand to the standard token sequence for every set of definitions and every use; expansion always terminates and never crashes.",
  ["inputs", "programs"], "all macro sets and invocations", "No preprocessor test exists.",
  CPP, [("expandrow/expand/substargs/stringify/doconcat", "lcc/cpp/macro.c"), ("hide sets", "lcc/cpp/hideset.c"), ("name list", "lcc/cpp/nlist.c")], (), ["preprocessor output"])
p("P03", "#if expressions are evaluated as C integer constant expressions",
  "Every #if or #elif expression built from integer and character constants, defined, macros, unknown identifiers and all operators is evaluated with C precedence, signedness, short-circuit and conversion rules, and malformed expressions or division by zero are diagnosed rather than misevaluated or crashing.",
  ["inputs"], "all constant expressions", "No preprocessor test exists.",
  CPP, [("operator-precedence evaluator", "lcc/cpp/eval.c")], (), ["selected group", "diagnostics, exit status"])
p("P04", "Tokens, comments, line splices, includes and line numbers are preserved",
  "Outside directives and macros the preprocessor passes every token unchanged and in order, treats comments as a space, joins continued lines, leaves strings and character constants intact, inserts included files at the point of inclusion (looked for in the directory of the main file for quoted names, then in the -I directories in order, which start from the directory of the main file, then in the directories of files included before), and its line information maps every token to the file and line it came from.",
  ["inputs"], "all source texts including extreme line and token lengths and include nestings", "No preprocessor test exists.",
  CPP, [("tokeniser state machine", "lcc/cpp/cpplex.c"), ("token rows", "lcc/cpp/tokens.c"), ("include search", "lcc/cpp/include.c"), ("#line synchronisation", "lcc/cpp/include.c:genline")], (), ["preprocessor output"])
p("L09", "Call tracing and null-pointer checks report the program's calls and keep its behaviour",
  "A program compiled with -tname calls name at every entry to and return from each of its functions, in order, with the function's name, the number of this call of the function, and the values of its scalar parameters or its result; compiled with -n it calls _YYnull only before a dereference of a null pointer; with these options and -g it compiles whenever it does without them and computes exactly the same results.",
  ["inputs", "programs"], "all valid programs", "No test compiles with these options.",
  ["lcc/src"], [("trace emission", "lcc/src/trace.c"), ("events", "lcc/src/event.c, decl.c, stmt.c:retcode"), ("nullcheck", "lcc/src/expr.c:nullcheck"), ("option handling", "lcc/src/main.c")], (), ["calls of the trace function", "program output"])
p("B01", "Generated tree matchers select minimum-cost covers",
  "For every well-formed tree grammar, every name prefix and every tree, the code that lburg generates compiles and its labeller assigns every node the minimum total rule cost among all derivations from each nonterminal (constant and dynamic costs, chain rules closed), records for each nonterminal a rule that achieves this cost (rule 0 where nothing matches), so that reduction by the recorded rules, the nonterminal vectors and the kids functions is a valid derivation; rule numbers, templates, instruction flags and rule texts are those of the grammar, -T traces every match with its cost, and null trees, unknown operators, nonterminals and rules are fatal. Malformed grammars and command lines are diagnosed, with the line, and a nonzero exit; lburg never crashes or hangs.",
  ["inputs", "programs"], "all grammars and all trees", "The generator is only run once on the fixed dag checker grammar.",
  ["lcc/lburg"], [("state/rule/closure emission", "lcc/lburg/lburg.c"), ("grammar parser", "lcc/lburg/gram.y, gram.c")], (), ["generated labeller's costs and rules", "lburg's diagnostics, exit status"])
for q in P:
    print(json.dumps(q))
