import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Garbage collection never changes what a Scheme program does",
 "The output, the files and the exit status of a Scheme program run by the interpreter do not depend on when, how often or whether the garbage collector runs, nor on the arena and jam-area sizes as long as the live data fits. Every kind of object (pairs, closures, continuations, vectors, strings, byte data, symbols, keywords, structs and records, hash tables, multiple values, macros, module bindings, string ports) keeps its identity and contents across any number of collections.",
 ["schedules","programs"],"every placement of collections at the interpreter's collection points, every arena/jam geometry that holds the live data, every program",
 "The tests run with a 20M-cell arena in which a collection practically never happens; only tests/gc.test and a few scaffold programs collect at all, at one fixed place.",
 ["src/gc.c","src/eval-apply.c","src/stack.c","src/struct.c","src/hash.c","src/module.c","src/symbol.c","src/vector.c","src/string.c","src/posix.c","include/mes/mes.h"],
 [("stop-and-copy with relocation of cars/cdrs, then flip back","src/gc.c gc_copy/gc_loop/gc_flip/gc_cellcpy"),("registers saved in a collector-visible stack frame before anything that can collect","src/eval-apply.c push_cc / gc_check, src/gc.c gc_push_frame")],
 [("g_cells/g_free/g_news","arena, allocation pointer, copy area","src/gc.c"),("g_stack_array","root stack, including continuations being run","src/gc.c, src/stack.c"),("g_symbols/g_macros/g_ports/M0","other roots","src/globals.c")],
 ["standard output/error, files, exit status of bin/mes"],"collection points: a guarded counter/decision in gc_check so the simulator chooses which ones collect")
p("C02","Running out of memory stops the interpreter, never falsifies results",
 "When the interpreter runs out of a memory resource (cell arena, jam area, evaluation stack, string-size limit, or heap refused by the operating system, even at start-up), it either still produces exactly the output, files and exit status of an unconstrained run, or it stops abnormally: non-zero exit status or death by signal. In the second case everything written before the stop is a prefix of what the unconstrained run writes (apart from diagnostics on standard error); it never hangs, and never reports success with missing or different output.",
 ["fault_sequences","configurations","programs"],"every setting of the documented size limits and every point at which the operating system refuses more heap",
 "The tests run with one generous configuration; no test makes an allocation fail.",
 ["src/gc.c","src/eval-apply.c","src/stack.c","src/string.c","lib/linux/malloc.c","lib/linux/brk.c"],
 [("explicit limit checks that stop the program","src/gc.c alloc/make_cell (out of memory), gc_push_frame/push_cc (STACK FULL), src/string.c assert_max_string")],
 None,["exit status, standard output and files of bin/mes"])
p("C03","Input is the same however the kernel delivers it",
 "What a Scheme program reads from files, pipes and terminals, both its source text and its data, is the byte sequence the file or stream holds, in order and exactly once, regardless of how the kernel splits it over reads, of pauses between pieces, and of how many ports are open or switched between. A failing read is never taken for the end of the input or for data: if one occurs the program does not go on to report success with less input than there was.",
 ["schedules","fault_sequences","inputs"],"every partition of every input stream into reads, every interleaving of reads on several ports, a read error at any point",
 "The tests read small regular files in which every read is full and none fails.",
 ["src/posix.c","src/reader.c","src/lib.c","lib/mes/fdgetc.c","lib/mes/fdungetc.c","lib/mes/__buffered_read.c","lib/posix/buffered-read.c","lib/linux/_read.c","mes/module/mes/guile.mes","mes/module/mes/scm.mes"],
 [("per-descriptor read-ahead and push-back buffers","lib/mes/__buffered_read.c, lib/mes/fdgetc.c, lib/mes/fdungetc.c"),("current-input-port switching","src/posix.c set_current_input_port, read_char")],
 None,["text the program prints, exit status"])
p("C04","Output arrives once and in order, or success is not reported",
 "The bytes a Scheme program writes to its ports reach each file, pipe or terminal in program order and exactly once. If the kernel accepts only part of a write the rest is still delivered; if output cannot be delivered (disk full, I/O error, closed pipe) the program does not exit with status 0.",
 ["fault_sequences","programs"],"every pattern of short writes and every point at which writes start to fail, on any output port",
 "The tests write to regular files and pipes that accept everything.",
 ["src/display.c","src/posix.c","src/mes.c","lib/mes/fdputs.c","lib/mes/fdputc.c","lib/mes/eputs.c","lib/mes/oputs.c","lib/posix/write.c","lib/linux/x86_64-mes-gcc/_write.c"],
 [("all printing funnels into fdputs/fdputc/write","src/display.c, src/posix.c write_byte, lib/mes/fdputs.c")],
 None,["bytes received by each output file/pipe, exit status"])
p("C05","mescc reports success only for a complete and correct output",
 "When mescc exits with status 0, its requested output file exists and is byte for byte what the same command produces in a fault-free run. Any failure on the way makes it exit non-zero or die: an input, header or library that is missing or cannot be read, an output that cannot be created or written in full, a helper (M1, hex2, blood-elf) that cannot be started, is killed by a signal or fails, a failing fork or wait.",
 ["fault_sequences","crash_points","inputs"],"every system call of the compiler driver as a failure point, every outcome of every helper process, every mescc mode (-E, -S, -c, link, -g)",
 "The test suite uses mescc only as a working compiler; no test makes a helper or a file operation fail.",
 ["module/mescc/mescc.scm","scripts/mescc.scm.in","module/mescc/preprocess.scm","module/mescc/M1.scm","mes/module/mes/posix.mes","mes/module/mes/guile.mes","src/posix.c","lib/posix/execv.c","lib/linux/waitpid.c","lib/linux/fork.c"],
 [("assert-system* turns a helper's status into mescc's own","module/mescc/mescc.scm assert-system*, mes/module/mes/posix.mes system*"),("errors end the program with a failure status","src/mes.c, mes/module/mes/catch.mes")],
 None,["exit status of mescc, bytes of the output file"])
p("C06","MesCC output depends only on its input",
 "For the same source files, options and header search path, mescc produces byte-identical assembly, object and executable files whatever the collection schedule, the arena sizes, the time of day, the process ids, the memory layout, unrelated environment variables, the way reads are split, and whether M1/hex2 run quickly or slowly.",
 ["schedules","configurations","inputs"],"every collection schedule and environment in which the compilation succeeds",
 "Reproducibility is claimed by the project but the tests compile each program once, in one environment.",
 ["module/mescc/compile.scm","module/mescc/M1.scm","module/mescc/info.scm","module/mescc/preprocess.scm","module/mescc/x86_64/as.scm","src/hash.c","src/symbol.c","src/gc.c"],
 [("labels and order derived from the program text and insertion order only","module/mescc/compile.scm, module/mescc/M1.scm"),("hashing by content, never by address","src/hash.c")],
 None,["bytes of .s/.o/executable outputs"],"same collection-point hook as C01")
p("C07","C library streams and descriptors act as one byte position per file",
 "For every interleaving of read, getc, fgets, fread, ungetc, lseek, fseek, ftell, write, fputs, fwrite, printf, dup, dup2, close and reopen on the Mes C Library's descriptors and streams, each input byte is returned exactly once and in order from the stream's position, each output byte lands exactly once at the position the calls imply, and reported positions, counts, end-of-file and errors agree with that. This holds for files, pipes and terminals, however the kernel splits reads and writes, and for the library built with GCC and with MesCC alike.",
 ["histories","schedules","fault_sequences"],"every operation history on several descriptors and every split or failure of the underlying reads and writes",
 "The tests open one file, read or write it once from start to end, in full-size reads.",
 ["lib/mes/__buffered_read.c","lib/posix/buffered-read.c","lib/posix/write.c","lib/linux/lseek.c","lib/stdio/*.c","lib/mes/fdgetc.c","lib/mes/fdungetc.c","lib/posix/open.c","lib/linux/close.c","lib/linux/dup2.c"],
 [("read-ahead buffer per descriptor, dropped on lseek/write/open/close","lib/mes/__buffered_read.c, lib/posix/write.c, lib/linux/lseek.c, lib/linux/close.c")],
 None,["return values, errno, delivered bytes, final file contents"])
p("C08","Heap blocks are disjoint, aligned, stable; exhaustion gives NULL",
 "Blocks returned by malloc, calloc, realloc, strdup and sbrk in the Mes C Library are suitably aligned, lie inside memory the kernel granted, and never overlap a live block; contents persist until the block is freed or resized, calloc's memory is zero, realloc keeps the common prefix. If the kernel refuses to extend the heap, the call returns NULL, sets no memory, leaves every live block intact, and later requests that fit still succeed.",
 ["histories","fault_sequences"],"every history of allocation calls and every point and duration at which the kernel refuses to move the break",
 "One test allocates a few blocks; the kernel never refuses memory in any test.",
 ["lib/linux/malloc.c","lib/stdlib/realloc.c","lib/stdlib/calloc.c","lib/stdlib/free.c","lib/posix/sbrk.c","lib/linux/brk.c","lib/string/strdup.c"],
 [("bump allocation on the program break","lib/linux/malloc.c")],[("__brk","end of memory handed out","lib/linux/malloc.c")],["returned pointers and block contents"])
p("C09","Directory listing returns every entry exactly once",
 "Reading a directory with the C library returns each entry that exists throughout the traversal exactly once, with its exact name, then reports the end, for any number and length of names and however the kernel batches entries; opening it again starts over, and several directories can be read alternately. A kernel error is reported as an error, not as the end of the directory.",
 ["schedules","inputs","fault_sequences"],"every directory content, every batching of entries by the kernel, errors at any batch",
 "One test reads a three-entry directory that fits a single kernel batch.",
 ["lib/dirent/readdir.c","lib/dirent/opendir.c","lib/dirent/closedir.c","lib/dirent/__getdirentries.c","lib/linux/getdents.c"],
 [("buffer of records refilled by getdents","lib/dirent/readdir.c, lib/dirent/__getdirentries.c")],None,["names returned by readdir"])
p("C10","Processes: right program, right arguments, right status",
 "A program started through the C library's fork/exec family (execv, execve, execl, execlp, execvp, with PATH search) receives exactly the given arguments, environment and open descriptors, in every interleaving of parent and children; pipes between them carry bytes in order to end-of-file. wait and waitpid return each child exactly once with the status it ended with (exit code or killing signal), whatever the order in which children run and end, and every failure is reported as -1 with the kernel's errno.",
 ["schedules","fault_sequences","histories"],"every interleaving of parent and children, every order of terminations, failure of any fork, exec, pipe or wait",
 "One test runs a single exec; schedules, several children and failures are never exercised.",
 ["lib/linux/fork.c","lib/linux/execve.c","lib/posix/execv.c","lib/posix/execvp.c","lib/posix/execl.c","lib/posix/execlp.c","lib/mes/search-path.c","lib/linux/waitpid.c","lib/posix/wait.c","lib/linux/pipe.c","lib/linux/dup2.c","lib/linux/kill.c","lib/stdlib/exit.c"],
 [("thin wrappers over fork/execve/wait4 plus PATH search","lib/posix/execvp.c, lib/mes/search-path.c, lib/linux/waitpid.c")],None,["argv/envp/fds seen by the child, statuses seen by the parent"])
p("C11","System-call wrappers report exactly what the kernel did",
 "Every C library call that stands for a kernel service on files and processes (open, close, stat family, access, mkdir, rmdir, unlink, remove, rename, link, symlink, readlink, chdir, getcwd, chmod, mknod, dup, fcntl, ioctl, fsync, ids, limits and timers) has exactly the effect on the system that the call with those arguments has, returns the kernel's result, and on failure returns -1 (NULL) with errno equal to the kernel's error, whichever call fails and with whatever error.",
 ["fault_sequences","histories","inputs"],"every argument, every system state reached by a history of calls, every error the kernel can return at every call",
 "Tests call a handful of wrappers, almost always in the succeeding case; no test injects an error.",
 ["lib/linux/*.c","lib/posix/getcwd.c","lib/posix/open.c","lib/stdio/remove.c","lib/linux/x86_64-mes-gcc/syscall.c","lib/linux/x86_64-mes-mescc/syscall.c","lib/linux/x86_64-mes-mescc/syscall-internal.c"],
 [("_sys_callN: negative kernel result -> -1 and errno","lib/linux/x86_64-mes-*/syscall.c")],None,["return value, errno, file-system and process state in the kernel"])
p("C12","Time: programs see the clock, sleeps last, elapsed time is right",
 "current-time, gettimeofday, get-internal-run-time and their C counterparts (time, gettimeofday, clock_gettime, sleep, nanosleep, alarm/setitimer) report the kernel's clocks at the moment of the call for every date representable, including across forward and backward jumps; sleeping lasts at least the requested time or reports what remained when interrupted, and the garbage collector's time accounting never alters a program's result.",
 ["schedules","fault_sequences","inputs"],"every clock value and jump between any two calls, every interruption of a sleep",
 "Tests cannot choose the time; one test only checks that time passes.",
 ["src/posix.c","src/gc.c","lib/linux/time.c","lib/linux/gettimeofday.c","lib/linux/clock_gettime.c","lib/linux/nanosleep.c","lib/posix/sleep.c","lib/posix/alarm.c","lib/linux/settimer.c"],
 [("conversion between seconds and sub-second units","src/posix.c seconds_and_nanoseconds_to_long, gettimeofday_")],None,["numbers printed by the program, simulated kernel clock"])
p("C13","The environment behaves as a map for any history of changes",
 "After any history of setenv, unsetenv and getenv (from C or from Scheme), starting from any initial environment, getenv returns the value most recently set for exactly that name, or nothing if it was removed or never set; environ lists exactly the current variables, children receive exactly these, and no other memory is disturbed, however many or long the variables are and even if memory runs out in between.",
 ["histories","inputs","fault_sequences"],"every history of environment operations, initial environment and allocation failure",
 "Two tests set or unset one variable once.",
 ["lib/posix/setenv.c","lib/posix/getenv.c","lib/posix/unsetenv.c","src/posix.c"],
 [("in-place update or append in the environ vector","lib/posix/setenv.c")],[("environ","NULL-terminated vector","lib/mes/globals.c")],["getenv results, environ contents, execve environment"])
p("C14","Signals reach exactly the right handler and disturb nothing else",
 "A signal sent to a process through the C library (kill, raise, abort, alarm, a closed pipe, a terminating child) is handled exactly once by the disposition in force at that moment (handler, default action, ignore); after a handler returns the interrupted program continues with its state, results and errno-visible outcome as if it had not been interrupted, apart from system calls that report the interruption.",
 ["schedules","fault_sequences"],"every moment of delivery and every history of signal dispositions",
 "One test raises one signal; asynchronous delivery is never exercised.",
 ["lib/linux/signal.c","lib/linux/sigprogmask.c","lib/linux/kill.c","lib/posix/raise.c","lib/stub/__raise.c","lib/stdlib/abort.c","lib/posix/alarm.c","lib/stub/sigaction.c"],
 [("rt_sigaction with a restorer","lib/linux/signal.c")],None,["handler log, exit status, state after return"])
p("C15","Scheme subprocess and port operations are faithful and well nested",
 "From Scheme, system*, primitive-fork, execlp/execl, waitpid and the status accessors run exactly the requested program with the requested arguments and report how exactly that child ended; with-output-to-file, with-input-from-file, with-output-to-string, with-input-from-string and current-port switching affect only their dynamic extent and leave the previous ports in force afterwards, whether it is left by returning or by an error. Failures (missing file or program, fork refused, killed child) are reported to the program as errors or a non-zero status, never as success.",
 ["schedules","fault_sequences","programs"],"every interleaving with children, every failing kernel call inside these operations, every nesting of port redirections",
 "No test runs system* or waitpid; port redirections are tested once each without failures.",
 ["mes/module/mes/posix.mes","mes/module/mes/guile.mes","src/posix.c"],
 [("system* = fork, execlp, waitpid","mes/module/mes/posix.mes"),("save/restore of current ports","mes/module/mes/guile.mes, mes/module/mes/posix.mes")],None,["values printed by the program, programs started, exit status"])
p("C16","Interactive and piped programs make progress and never over-wait",
 "When the interpreter reads from a terminal or pipe, it acts on each complete line of input as soon as that line has arrived: a REPL prints the value of every complete expression before the next one is typed, a filter program answers each complete request without waiting for more input or for end-of-file, and at end-of-file it finishes with the right status. Errors in one expression do not lose or reorder the others.",
 ["schedules","histories"],"every arrival schedule of the input relative to the program's output",
 "Tests feed complete files, so waiting for more input than needed can never be noticed.",
 ["src/mes.c","src/posix.c","lib/mes/fdgetc.c","lib/mes/__buffered_read.c","mes/module/mes/repl.mes","mes/module/mes/boot-0.scm"],
 [("byte-at-a-time fdgetc on top of one kernel read","lib/mes/fdgetc.c"),("REPL loop","mes/module/mes/repl.mes")],None,["order of program output relative to simulated input arrival"])
p("C17","Exit status and exit handlers are faithful",
 "A program ends with exactly the status it asked for (value returned by main, argument of exit or _exit, Scheme exit or end of program), abnormal ends are never reported as success, and functions registered with atexit run exactly once each on normal exit and never on abnormal exit, whatever signals, output failures or child processes are involved.",
 ["histories","fault_sequences"],"every way of ending a program combined with every registered handler history and failure",
 "Tests check exit 0/1/42 only; handlers, uncaught exceptions and failure combinations are not covered.",
 ["lib/stdlib/exit.c","lib/stdlib/atexit.c","lib/stdlib/__exit.c","lib/stdlib/abort.c","lib/linux/x86_64-mes-gcc/crt1.c","lib/linux/x86_64-mes-mescc/crt1.c","src/mes.c","src/posix.c"],
 [("exit runs the registered function then _exit","lib/stdlib/exit.c"),("crt1 passes main's value to the exit system call","lib/linux/x86_64-mes-*/crt1.c")],None,["wait status seen by the kernel, side effects of handlers"])
p("C18","MesCC translates C correctly",
 "An executable that mescc produces from a supported C program behaves as the C language defines: arithmetic, conversions, control flow, pointers, structs, calls and initialisers give the values the standard prescribes.",
 ["programs","inputs"],"every supported C program and input","The tests compile fixed programs; they cannot cover the space of programs.",
 ["module/mescc/compile.scm","module/mescc/x86_64/as.scm","module/mescc/i386/as.scm","module/mescc/armv4/as.scm"],
 [("AST-directed code generation over a small virtual instruction set","module/mescc/compile.scm")],None,["behaviour of compiled programs"])
p("C19","The evaluator implements Scheme semantics",
 "Core syntax, hygiene-free and syntax-rules macros, proper tail calls, call/cc, dynamic-wind, catch/throw, numbers, strings, lists and the provided SRFIs give the values that R7RS/Guile semantics prescribe for every program.",
 ["programs","inputs"],"every Scheme program","The tests check fixed expressions.",
 ["src/eval-apply.c","src/lib.c","src/math.c","src/string.c","mes/module/mes/*.mes","mes/module/srfi/*.mes"],
 [("CPS register machine","src/eval-apply.c")],None,["values printed by programs"])
p("C20","C library string, number and formatting functions are correct",
 "Pure functions of the C library (string and memory functions, number conversion, printf and scanf formatting, sorting, character classes) compute the results the C standard prescribes for every argument within their supported subset.",
 ["inputs"],"every argument","The tests call each function with a few arguments.",
 ["lib/string/*.c","lib/stdlib/*.c","lib/ctype/*.c","lib/mes/*.c","lib/stdio/vfprintf.c","lib/stdio/vsnprintf.c","lib/stdio/vsscanf.c"],
 [("straightforward C implementations","lib/string, lib/stdlib, lib/ctype, lib/stdio")],None,["return values"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
