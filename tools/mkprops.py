#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

T = "The tests compile one small file per invocation, on a healthy file system, and never "

prop("C01", "Exit status 0 means the whole output was written",
 "If lacc exits with status 0 then every output it was asked for (the -E text on standard output or in the -o file, the -S assembly, the -c object, each object of a link) is present and byte for byte what a fault-free run produces. When any write, flush or close of an output fails, or the file system fills up at any byte, the exit status is nonzero and a message is printed.",
 ["fault_sequences", "inputs", "configurations"],
 "every output mode, every program, and every placement of open/write/seek/flush/close errors, short writes and full disks on the output side",
 T + "see a failing write: a dropped stdio error is invisible to all of them.",
 ["src/lacc.c", "src/backend/x86_64/elf.c", "src/backend/x86_64/assemble.c", "src/preprocessor/preprocess.c", "src/backend/dot.c"],
 [("process_file opens, flushes and closes the output and folds the result in the exit status", "src/lacc.c"), ("elf_flush writes header, sections and symbol tables", "src/backend/x86_64/elf.c")],
 observe=["exit status", "bytes of the output files in the simulated file system", "standard output", "standard error"])

prop("C02", "Exit status 0 means every input byte was read",
 "If lacc exits with status 0 then its output is the one determined by the complete contents of every source file and of every header that the search order selects. A read error or a failing open that is not simply 'no such file' is never taken for end of file or for absence of the header, so it never truncates an input, skips an include or substitutes another header; it ends in a message and a nonzero exit status.",
 ["fault_sequences", "inputs"],
 "every placement of read errors at any byte of any input, and of open errors (EIO, EACCES, EMFILE, ENFILE) on any source or header, in every mode",
 T + "meet a read or open error other than a missing file.",
 ["src/preprocessor/input.c", "src/preprocessor/directive.c", "src/preprocessor/preprocess.c"],
 [("initial_preprocess_line fills the line buffer and decides end of file", "src/preprocessor/input.c"), ("include_file / include_system_file try the search path in order", "src/preprocessor/input.c")],
 observe=["exit status", "output bytes", "standard error"])

prop("C03", "Output does not depend on how input bytes arrive",
 "Preprocessed text, assembly, objects and diagnostics (with their line numbers) depend only on the bytes of the files read: where a token, comment, literal, line continuation, directive or macro call falls relative to internal buffers, how long a line or comment is, how many bytes each read delivers and how large internal tables happen to be make no difference. Shifting a whole source by leading white space or comments changes nothing but line numbers and that white space.",
 ["inputs", "configurations", "schedules"],
 "every alignment of the input against every internal buffer and table size, every partition of the input into reads",
 "Test sources are short and sit at one fixed alignment; a buffer or table boundary falls inside an interesting construct only by accident.",
 ["src/preprocessor/input.c", "src/preprocessor/tokenize.c", "src/preprocessor/preprocess.c", "src/preprocessor/strtab.c", "src/util/hash.c", "include/lacc/array.h", "include/lacc/deque.h"],
 [("line buffer rewind, growth and refill", "src/preprocessor/input.c initial_preprocess_line"), ("growable arrays, deques and hash tables", "include/lacc/array.h, include/lacc/deque.h, src/util/hash.c")],
 observe=["output bytes", "standard error"], hook="LACC_SIM: initial capacities of buffers and tables become run-time knobs")

prop("C04", "Builds are reproducible",
 "For the same arguments and the same file contents, lacc gives the same output bytes, diagnostics and exit status on every run. They do not depend on memory contents or addresses handed out by the allocator, uninitialised memory, address layout, process id, environment variables, file times or inode numbers, descriptor numbers or, unless __DATE__ or __TIME__ is used, the clock.",
 ["configurations", "schedules", "programs"],
 "every allocator behaviour (address order, reuse, garbage contents, moving reallocations), every clock, pid, environment and stack or address layout, every program",
 "A test runs once in one process layout with a fresh zeroed heap, so it cannot tell a dependence on addresses or stale memory from none.",
 ["src/util/hash.c", "src/preprocessor/strtab.c", "src/parser/symtab.c", "src/parser/typetree.c", "src/parser/initializer.c", "src/backend/x86_64/elf.c", "src/backend/x86_64/dwarf.c", "src/optimizer/liveness.c"],
 [("zero initialisation of recycled symbols, blocks and buffers", "src/parser/symtab.c, src/parser/parse.c"), ("emission order follows declaration order, not addresses", "src/parser/symtab.c yield_declaration")],
 observe=["output bytes", "standard error", "exit status"])

prop("C05", "Running out of memory never yields wrong output",
 "If any memory allocation fails during a run, the run does not exit with status 0 unless its output is exactly what a run without the failure produces: it stops unsuccessfully, and never silently drops declarations, tokens, sections, symbols or arguments.",
 ["fault_sequences", "programs"],
 "every single allocation failing, every allocation from some point on failing, and random subsets of allocations failing, in every mode",
 T + "see an allocation fail.",
 ["include/lacc/array.h", "include/lacc/deque.h", "src/util/hash.c", "src/preprocessor/strtab.c", "src/preprocessor/input.c", "src/parser/symtab.c", "src/parser/typetree.c", "src/parser/parse.c", "src/backend/x86_64/elf.c"],
 [("every allocation is used directly, so that failure stops the process", "all allocation sites")],
 observe=["exit status", "output bytes"])

prop("C06", "Each file of an invocation is compiled as if alone",
 "Compiling several files in one invocation gives, for each, an object or assembly equivalent to compiling it in an invocation of its own: macros, declarations, types, tags, conditional nesting, buffered tokens, string tables, optimiser and section state of earlier files do not leak into later ones, whatever the earlier files contained. Equivalent means the same sections, symbols, relocations and diagnostics up to the numbering of compiler-generated local names.",
 ["histories", "programs", "configurations"],
 "every sequence of translation units, modes and optimisation levels in one process",
 "The tests compile several files per invocation hardly at all, and only in one order each.",
 ["src/lacc.c", "src/preprocessor/preprocess.c", "src/preprocessor/macro.c", "src/preprocessor/directive.c", "src/preprocessor/strtab.c", "src/parser/symtab.c", "src/parser/typetree.c", "src/backend/x86_64/elf.c", "src/backend/x86_64/compile.c", "src/optimizer/optimize.c"],
 [("preprocess_reset, clear_types, symtab_clear, flush between files", "src/lacc.c process_file"), ("per file reset of ELF sections and pending relocations", "src/backend/x86_64/elf.c elf_init/elf_flush")],
 observe=["object contents", "assembly", "standard error", "exit status"])

prop("C07", "A killed compilation is repaired by running it again",
 "Killing lacc at any point, or losing power with any part of its writes on disk, leaves nothing behind that matters: running the same command again gives exactly the output, messages and exit status of a run in a clean directory. In particular whatever the output path, or any other file lacc itself wrote, held before the run has no influence.",
 ["crash_points", "histories"],
 "every point of a run at which the process can die, every subset of unsynced writes surviving, any number of crashes before the run that completes, any prior contents of the output path",
 "No test kills the compiler or starts it over leftovers.",
 ["src/lacc.c", "src/backend/x86_64/elf.c", "src/backend/linker.c"],
 [("outputs are truncated when opened; no state is kept between runs", "src/lacc.c process_file")],
 observe=["output bytes", "exit status", "files in the working directory"])

prop("C08", "Concurrent compilations do not disturb each other",
 "When several lacc processes run at the same time in the same directories with different outputs, under any interleaving of their system calls and with any of them being killed, each of the others produces the output, messages and exit status it produces when run alone.",
 ["schedules", "crash_points"],
 "every interleaving of any number of invocations that share sources, headers and working directory, with crashes of some",
 "Tests look at each output on its own and control no interleaving.",
 ["src/lacc.c", "src/preprocessor/input.c", "src/backend/linker.c"],
 [("no shared temporary files, caches or locks", "src/lacc.c")],
 observe=["output bytes", "exit status", "standard error"])

prop("C09", "Linking happens only after success and its failure is seen",
 "When lacc is used to link, the linker is started exactly once, only after every source compiled successfully and every object is completely written, with objects, libraries, paths and linker flags in command-line order and -o and -shared/-static as given. If a compilation fails, or the linker cannot be started, exits nonzero or is killed by a signal, lacc exits nonzero; it exits 0 only if the linker ran and exited 0, and it waits for it even when the wait is interrupted.",
 ["fault_sequences", "configurations", "histories"],
 "every mix of inputs and link options, every failure of fork, exec, wait and of the linker itself (any exit status, any signal), interrupted waits",
 "The tests only link successfully.",
 ["src/backend/linker.c", "src/lacc.c"],
 [("invoke_linker forks, executes and waits", "src/backend/linker.c"), ("argument order bookkeeping", "src/lacc.c add_input_file, add_linker_flag")],
 observe=["arguments, order and time of the simulated linker", "exit status"])

prop("C10", "Input that ends too early is rejected",
 "A source or header whose text stops inside a comment, a string or character literal, a conditional group or a directive line, and a source that with its headers stops inside a macro call, a parenthesis, bracket, brace or declaration (as after a torn write or truncated copy), is reported with a message and a nonzero exit status. It is never accepted, and what was left open never leaks into the next file.",
 ["inputs", "fault_sequences"],
 "every prefix of every source and header, in every mode, alone or followed by other files",
 "Test inputs are complete files.",
 ["src/preprocessor/input.c", "src/preprocessor/directive.c", "src/preprocessor/preprocess.c", "src/parser/parse.c", "src/parser/statement.c", "src/parser/declaration.c"],
 [("end of input checks in line, macro call and conditional handling", "src/preprocessor")],
 observe=["exit status", "standard error"])

prop("C11", "Every run ends within a bounded amount of work",
 "Whatever the inputs and whatever faults occur, lacc terminates after work bounded by the size of the input: it never loops on an I/O error, at end of file, on a missing delimiter or on input that is cut short anywhere, and memory does not grow without bound.",
 ["inputs", "fault_sequences", "crash_points"],
 "every truncation of every input and every sequence of I/O and allocation faults; programs without self-inclusion",
 "A hang needs a fault or a torn input, and the tests have neither.",
 ["src/preprocessor/input.c", "src/preprocessor/preprocess.c", "src/preprocessor/macro.c", "src/parser/declaration.c", "src/parser/statement.c", "src/backend/linker.c"],
 [("loops that read until a terminator check for end of input", "src/preprocessor, src/parser")],
 observe=["number of simulated operations and allocated bytes until exit"])

prop("C12", "Environment errors end in a message, not a crash",
 "A missing or unreadable source or header, a directory in place of a file, an unwritable output, a full disk, exhausted descriptors, a failing fork or a source cut short ends with a message on standard error and a nonzero exit status. lacc does not abort on an internal assertion and does not access invalid memory because of them.",
 ["fault_sequences", "inputs"],
 "every I/O fault at every operation, every truncation point of every input, in every mode (running out of memory excepted, see C05)",
 "The tests have no I/O faults and no truncated files.",
 ["src/preprocessor/input.c", "src/preprocessor/preprocess.c", "src/lacc.c", "src/backend/linker.c"],
 [("error() followed by exit(1)", "src/preprocessor/input.c, src/lacc.c")],
 observe=["exit status or signal", "standard error"])

prop("C13", "One translation unit sees one date and time",
 "All expansions of __DATE__ and __TIME__ within one translation unit denote one and the same instant, which lies between the start and the end of that run as shown by the clock, in the formats 'Mmm dd yyyy' (day padded with a space) and 'hh:mm:ss', even when the clock advances, jumps or crosses midnight or a year's end while the file is being read. Nothing else in the output depends on the clock.",
 ["schedules", "configurations"],
 "every clock history, including steps forwards and backwards at any point of the run",
 "Tests cannot move the clock between two expansions.",
 ["src/preprocessor/macro.c"],
 [("time is sampled when built-in macros are registered for the file", "src/preprocessor/macro.c register_builtin_definitions")],
 observe=["preprocessed text", "data of the object"])

prop("C14", "Open descriptors are bounded by include depth",
 "At every moment the files lacc holds open are at most the output, the source and the headers that are still being read, so a number bounded by include nesting plus a constant, however many headers, source files or conditional groups were processed before. Every file is closed again, and a translation unit that includes any number of headers in sequence compiles under the same descriptor limit as one that includes a single header.",
 ["histories", "configurations", "inputs"],
 "every sequence of includes, source files and failures to open, under every descriptor limit",
 "The tests never come near a descriptor limit.",
 ["src/preprocessor/input.c", "src/lacc.c"],
 [("push_file/pop_file", "src/preprocessor/input.c"), ("fclose of the output", "src/lacc.c")],
 observe=["open and close calls", "exit status under a descriptor limit"])

prop("C15", "Only the requested outputs are written",
 "A run creates, truncates, modifies, renames or removes no file except the output named by -o or derived from a source's name, or the intermediate objects of a link. Sources and headers are never modified, no other file (temporary or otherwise) is left behind by a run that exits by itself, and when a source cannot be opened the previous contents of its output are left as they were.",
 ["fault_sequences", "configurations", "histories"],
 "every mode and argument combination, every fault during the run",
 "Tests look only at the file they asked for.",
 ["src/lacc.c", "src/preprocessor/input.c"],
 [("the source is opened before the output", "src/lacc.c process_file"), ("output naming", "src/lacc.c change_file_suffix")],
 observe=["the simulated file system before and after"])

prop("C16", "Memory in use is that of the unit being compiled",
 "A process that compiles many sources holds, at any time, memory for the one it is working on: what a source, a function, an include, a macro expansion or a conditional needed is released or used again by the next. Compiling the same sources again and again loses no memory for good, many sources with names of their own need no more than a few of them, and with -E repeated text, macro calls, conditionals and includes pass through in constant memory.",
 ["histories", "configurations"],
 "every sequence and number of sources, every length of text, every behaviour of the allocator",
 "Tests compile one small file per process, where nothing lost is ever missed.",
 ["src/preprocessor/macro.c", "src/preprocessor/input.c", "src/preprocessor/strtab.c", "src/parser/symtab.c", "src/parser/typetree.c", "src/parser/parse.c", "src/lacc.c"],
 [("per-unit state is reset", "src/lacc.c process_file"), ("blocks, symbols and token arrays are recycled", "src/parser/parse.c, src/parser/symtab.c, src/preprocessor/macro.c")],
 observe=["bytes held of the simulated heap, at most and at exit"])

prop("G01", "Signal handlers do not disturb compiled code",
 "A signal delivered between any two instructions of a compiled function, on the same stack, with a handler that obeys the x86-64 ABI (it may overwrite everything more than 128 bytes below the stack pointer and call other compiled functions), does not change the results of the interrupted program. Compiled code therefore keeps no live data beyond the red zone and keeps its frame valid at every instruction.",
 ["schedules", "programs"],
 "every instruction boundary of every compiled program at every optimisation level",
 "Tests run without signals; a frame that is live below the red zone works until a signal arrives at the wrong instruction.",
 ["src/backend/x86_64/compile.c", "src/backend/x86_64/abi.c", "src/optimizer/optimize.c"],
 [("enter() reserves the frame before it is used, leave happens last", "src/backend/x86_64/compile.c"), ("red zone use for conversions", "src/backend/x86_64/compile.c load_float_from_long_double")],
 observe=["results of the simulated program"])

prop("G02", "Volatile accesses happen exactly as written",
 "Every read and write of a volatile object in the source is performed exactly once, with the object's own width and in program order, at every optimisation level; none is removed, duplicated, merged, split, reordered or replaced by a cached value. Values changed behind the program's back, by a device, a signal handler or another thread, are seen by the next read, and volatile locals keep their latest value across setjmp and longjmp.",
 ["schedules", "programs"],
 "every program, optimisation level, and every history of outside changes to volatile objects",
 "Tests compare final output only; they have no observer that changes or watches volatile objects between accesses.",
 ["src/optimizer/optimize.c", "src/optimizer/transform.c", "src/optimizer/liveness.c", "src/backend/x86_64/compile.c", "src/parser/eval.c", "src/parser/expression.c"],
 [("the optimiser must leave volatile objects alone", "src/optimizer"), ("only temporaries are kept in registers", "src/backend/x86_64/compile.c allocate_registers")],
 observe=["trace of accesses to the simulated device memory"])

prop("G03", "Stores do not touch neighbouring objects",
 "Assigning to, initialising or passing an object that is not a bit-field, of any size and type including structures of any length returned in registers or memory, modifies no byte outside that object, not even transiently by writing back a value read before. So threads or signal handlers that update adjacent array elements or structure members never lose an update.",
 ["schedules", "programs"],
 "every program and object size, every interleaving of another party's writes to adjacent bytes",
 "A write-back of the old neighbour, or a clobbered pad byte, is invisible without a concurrent writer or a guard next to the object.",
 ["src/backend/x86_64/compile.c", "src/backend/x86_64/abi.c", "src/parser/initializer.c"],
 [("store_op, emit_memcpy and store_object_from_registers use exact widths", "src/backend/x86_64/compile.c")],
 observe=["bytes around each object after every instruction"])

prop("G04", "Aligned scalars are read and written in one piece",
 "A load or store of a naturally aligned scalar of at most eight bytes that is not a bit-field (integer, floating point or pointer) is a single memory access of that width; only a load whose value is at once converted to a narrower integer type may read just the part that is kept. Another thread or a signal handler therefore sees the old or the new value, never a mixture.",
 ["schedules", "programs"],
 "every program and optimisation level, every instruction boundary",
 "Tearing is only visible to an observer between two instructions.",
 ["src/backend/x86_64/compile.c", "src/backend/x86_64/encoding.c"],
 [("one mov per scalar", "src/backend/x86_64/compile.c store_op, emit_load")],
 observe=["memory after every instruction"])

prop("G05", "Concurrent activations are independent",
 "Compiled functions keep their parameters, automatic objects, temporaries, variable argument lists and returned structures in storage of the activation only. Any number of activations of the same function, interleaved at any instruction by threads, by signal handlers that re-enter it or by recursion, each return what they return when run alone, so long as the source shares no object between them.",
 ["schedules", "programs"],
 "every program, and every interleaving of its activations at instruction granularity",
 "Tests are single-threaded and never re-enter a function part-way.",
 ["src/backend/x86_64/compile.c", "src/parser/symtab.c", "src/parser/declaration.c"],
 [("all temporaries live in the frame or in registers", "src/backend/x86_64/compile.c allocate_locals, allocate_registers")],
 observe=["results of every simulated thread"])

prop("G06", "Compiled code relies only on what the ABI guarantees",
 "At every call compiled code assumes nothing but the x86-64 System V ABI: a callee may leave garbage in every register it need not preserve, in the flags and in the stack below its frame, and frames start with garbage contents. In turn compiled functions preserve rbx, rbp, r12 to r15, the stack pointer, the direction flag and the floating-point control words, keep the stack 16-byte aligned at every call, leave the x87 stack empty, and return the address of a structure returned in memory in rax.",
 ["schedules", "programs", "fault_sequences"],
 "every call boundary of every compiled program and every choice of garbage",
 "Real callees usually leave registers and stack alone, so stale values survive by luck in tests.",
 ["src/backend/x86_64/compile.c", "src/backend/x86_64/abi.c"],
 [("store_caller_saved_registers / load_caller_saved_registers", "src/backend/x86_64/compile.c"), ("prologue and epilogue", "src/backend/x86_64/compile.c enter, compile_block")],
 observe=["registers and stack at call and return", "results of the simulated program"])

prop("G07", "Compiled code reads only the objects the program reads",
 "Using the value of an object reads no byte outside that object: expressions, assignments, conversions, arguments, returned values and discarded values of scalars, bit-fields and structures of any size load only bytes of the objects named. So an object may lie at the very end of mapped memory, next to a device register whose reads have side effects, or next to data another thread is writing.",
 ["schedules", "programs"],
 "every program and object size, every placement of the object next to memory that must not be read",
 "In a test the bytes after an object are always mapped and reading them has no effect.",
 ["src/backend/x86_64/compile.c", "src/backend/x86_64/abi.c"],
 [("load_bytes, field_bytes, push and emit_memcpy use exact widths", "src/backend/x86_64/compile.c")],
 observe=["accesses to guarded bytes around each object"])

prop("G08", "Loops and calls leave the stack as they found it",
 "Every iteration of a loop starts with the stack pointer and the x87 register stack it started with the time before, whatever the body calls, passes, converts or leaves by continue, goto, break or switch; what a call or a temporary pushed is popped. So a loop may run for any number of iterations, a server for any time, in bounded stack.",
 ["schedules", "programs"],
 "every program, every loop, any number of iterations",
 "A few iterations in a test never exhaust the stack, and the frame pointer hides an unbalanced one when the function returns.",
 ["src/backend/x86_64/compile.c"],
 [("compile_call pops what it pushed", "src/backend/x86_64/compile.c"), ("long double operations pop what they load", "src/backend/x86_64/compile.c"), ("known finding: arrays of variable length in a loop body", "src/backend/x86_64/compile.c IR_VLA_ALLOC")],
 observe=["stack pointer and x87 depth at every backward jump"])

prop("G09", "Compiled code works wherever it and its data are placed",
 "Position independent code, the default, computes the same wherever the loader puts its sections, its stack and the memory it is given, however far its modules and the functions it calls are apart; and it reaches what has external linkage only through the global offset table and the procedure linkage table, also inside the module that defines it, so that another module may define it instead (a copy in the executable, an interposed function). Code compiled with -fno-PIC does the same anywhere in the lower 2 GB. No address makes a pointer behave as null, as a pointer to another object, or out of order.",
 ["schedules", "programs", "configurations"],
 "every program of any number of modules, every placement and every binding of symbols a loader may choose",
 "A test is linked statically or loaded at a few ordinary addresses, where every symbol is bound to its own module's definition and no object lies on a 4 GB boundary.",
 ["src/backend/x86_64/compile.c", "src/backend/x86_64/encoding.c", "src/backend/x86_64/elf.c", "src/backend/x86_64/assemble.c", "src/parser/eval.c"],
 [("is_global_offset decides what goes through the GOT or PLT", "src/backend/x86_64/compile.c"), ("relocation types and addends", "src/backend/x86_64/encoding.c, src/backend/x86_64/elf.c"), ("pointers compare and convert with all 64 bits", "src/backend/x86_64/compile.c compile_compare, src/parser/eval.c eval_cast")],
 observe=["results and calls of the placed program against those of the program linked at ordinary addresses", "relocations the loader cannot bind"])

NA = "A pure function of its input: no schedule, clock, fault or second party is involved, so deterministic simulation adds nothing over input generation."
for id, title, st, files in [
 ("N01", "Compiled programs mean what C says", "For every valid C89, C99 or C11 program in the supported subset, the compiled program behaves as the C abstract machine prescribes.", ["src/parser", "src/backend/x86_64/compile.c"]),
 ("N02", "-S and -c agree", "Assembling the -S output gives the same code, data, symbols and relocations as -c writes directly.", ["src/backend/x86_64/assemble.c", "src/backend/x86_64/encoding.c", "src/backend/x86_64/elf.c"]),
 ("N03", "Optimisation preserves meaning", "-O1 to -O3 do not change the behaviour of programs without volatile objects and concurrency.", ["src/optimizer/optimize.c", "src/optimizer/transform.c", "src/optimizer/liveness.c"]),
 ("N04", "Preprocessing is idempotent", "Preprocessing the -E output again and compiling it gives what compiling the source gives.", ["src/preprocessor/preprocess.c", "src/preprocessor/macro.c"]),
 ("N05", "Interoperates with gcc and clang", "Calls, argument lists, structure layout and data exchanged with code from other compilers for the same ABI work in both directions.", ["src/backend/x86_64/abi.c"]),
 ("N06", "Self-hosting reaches a fixpoint", "lacc compiled by lacc produces the same objects as lacc compiled by another compiler.", ["src/lacc.c"]),
 ("N07", "Constraint violations are diagnosed", "Every violation of a syntax rule or constraint gives at least one message and a nonzero exit status.", ["src/parser"]),
 ("N08", "Constant folding equals run-time evaluation", "Every expression the compiler folds has the value and type the target machine would compute.", ["src/parser/eval.c", "src/preprocessor/directive.c"]),
]:
    prop(id, title, st, ["programs"], "every program", "The tests sample a few hundred programs.", files, [("compiler pipeline", files[0])])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
