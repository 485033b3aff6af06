#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run from /verif to regenerate it.
import json
L="lib/libloong/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":[L+f if not f.startswith(("emulator","lib/")) else f for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("P01","A guest can never reach host memory outside its own arena",
 "Whatever code, register contents, memory contents or system-call arguments a guest ends up with - including after arbitrary corruption of its state in the middle of a run - no guest access or system call reads or writes host memory outside that machine's guest memory (plus the documented slack after its end), and nothing the guest does changes the part of its memory that was loaded read-only. An out-of-range access ends in a machine exception that the host can catch. After such an exception the host process and every other machine are intact.",
 ["inputs","programs","fault_sequences","crash_points"],
 "all guest programs, all register/memory/code corruptions injected at any instruction boundary, all system-call numbers and arguments, all arena placements and sizes",
 "The tests run well-behaved compiled programs and a few hand-picked bad pointers; the space of corrupted states and hostile arguments (huge lengths, wrap-around, ranges that start inside and end outside) is unbounded, and an overrun of a heap- or mmap-backed arena is silent in an ordinary run.",
 ["memory.hpp","memory_inline.hpp","memory_rw.cpp","la_instr_impl.hpp","bytecode_impl.cpp","linux/syscalls.cpp","linux/syscalls_threads.cpp","machine_accelerate.cpp","machine_inline.hpp"],
 [("range checks on guest reads/writes and on host views of guest ranges","memory_inline.hpp, memory_rw.cpp"),("arena over-allocation slack","common.hpp LA_OVER_ALLOCATE_SIZE"),("per-syscall argument checks","linux/syscalls.cpp")],
 [("arena","the guest's linear memory","memory.hpp m_arena"),("read-only and data boundaries","lowest readable and lowest writable guest address","memory.hpp m_rodata_start/m_data_start")],
 ["guard pages around the arena","digest of the read-only range","exceptions leaving simulate/step/system calls"])

prop("P02","Instruction budgets bound every run, are reported, and count exactly",
 "A run given an instruction budget always returns to the host after executing at least the budget and at most the budget plus one straight-line stretch of code, unless the guest stopped or faulted first, whatever the guest does. The reported instruction count equals the number of guest instructions actually executed since the count was started. The host is told that the limit was reached exactly when the run ended because of the budget, and a host-to-guest call given a budget raises a timeout in exactly that case.",
 ["programs","schedules","histories","inputs"],
 "all guest programs (including ones with blocks of any length, self-loops, branches to any address), all budgets and starting counts, stop requests from any system call",
 "Unit tests check one or two loops at a few budgets; off-by-one, truncated per-block counts and missed limit reports only show for particular block lengths, branch kinds and budgets.",
 ["threaded_dispatch.cpp","bytecode_impl.cpp","decoder_cache.cpp","decoder_cache.hpp","machine.hpp","machine_vmcall.hpp","cpu.cpp","tailcall_dispatch.cpp","tailcall_inaccurate_dispatch.cpp"],
 [("per-block counting at block entry","decoder_cache.hpp instruction_count, threaded_dispatch.cpp"),("limit test on taken branches","threaded_dispatch.cpp check_jump/PERFORM_BRANCH"),("stop()","machine.hpp"),("timeout exceptions","machine_vmcall.hpp")],
 [("instruction counter and limit","how far the run got and may go","machine.hpp m_counter/m_max_instructions")],
 ["instruction_counter()","instruction_limit_reached()","stopped()","MachineException type MACHINE_TIMEOUT"])

prop("P03","Pausing and resuming anywhere never changes what a guest computes",
 "Interrupting a guest by its instruction budget at any point and resuming it, any number of times and with any sequence of budgets, gives the same registers, guest memory, output, exceptions and total instruction count as one uninterrupted run. This also holds when the host, while the guest is paused, inspects it, runs other machines of the same or other programs, drops shared decoded code it is not using, or switches between the budgeted and the single-step way of running.",
 ["schedules","programs","histories"],
 "all guest programs, all pause points and budget sequences, all interleavings with other machines' work between slices",
 "The tests pause a machine a handful of times at fixed points; a state that is kept in a dispatch local and not written back shows only if the pause falls on a particular instruction kind.",
 ["threaded_dispatch.cpp","threaded_inaccurate_dispatch.cpp","cpu.cpp","machine.hpp","machine_inline.hpp","memory.cpp","shared_exec_segment.cpp","tailcall_dispatch.cpp","tailcall_inaccurate_dispatch.cpp"],
 [("write-back of pc and counter when a slice ends","threaded_dispatch.cpp stop_execution"),("resumption from stored pc","machine_inline.hpp simulate"),("re-entry into the execute segment","cpu.cpp next_execute_segment")],
 None,["final registers, memory digest, output, counter"])

prop("P04","Every way of executing a guest gives the same result",
 "The budgeted, the unlimited and the single-step engines, in the threaded as well as in the tail-call dispatch build, give the same registers (integer, floating-point, vector and condition flags), guest memory, system-call sequence and kind of exception for every guest program whose control stays inside its decoded code, from every starting state (up to which of two NaN operands a floating-point operation hands on). Switching engine at any point where the guest can be paused makes no difference.",
 ["programs","inputs","schedules","configurations"],
 "all instruction encodings the decoder accepts, all operand values including aliased and zero registers, all block shapes, all engine-switch points",
 "The instruction tests run each instruction through one engine with a few operands; the bytecode fast paths, the operand rewriter and the generic handlers are three separate implementations that must agree on every encoding.",
 ["bytecode_impl.cpp","threaded_rewriter.cpp","decoder_cache.cpp","threaded_dispatch.cpp","threaded_inaccurate_dispatch.cpp","cpu.cpp","la_instr_impl.hpp","la64.cpp","tailcall_dispatch.cpp","tailcall_inaccurate_dispatch.cpp"],
 [("bytecode selection","decoder_cache.cpp determine_bytecode"),("operand rewriting","threaded_rewriter.cpp optimize_bytecode"),("fast handlers","bytecode_impl.cpp"),("generic handlers","la_instr_impl.hpp")],
 None,["register file, memory digest, exception type"])

prop("P05","Machines on different host threads never interfere",
 "Machines created, run, called into, reset and destroyed concurrently on different host threads - with the same or different programs, sharing decoded code or not - each behave exactly as they would alone. Under every interleaving there is no data race, deadlock or use of freed memory inside the library, even when a machine's construction fails part-way on one of the threads.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of machine lifecycles on several host threads at the granularity of single memory accesses, with allocation failures injected at any allocation",
 "The concurrency tests start a few threads and hope; the window in which two first-time constructions collide is a few instructions wide and the operating system decides whether it is hit.",
 ["shared_exec_segment.cpp","shared_exec_segment.hpp","memory.cpp","decoder_cache.cpp","decoder_cache.hpp","decoded_exec_segment.cpp","machine.cpp","cpu.cpp","la64.cpp"],
 [("per-entry and map locks of the shared code cache","shared_exec_segment.hpp"),("double-checked creation of a shared segment","memory.cpp create_execute_segment"),("one-time initialisation","machine.cpp, cpu.cpp empty_execute_segment"),("process-wide handler table","decoder_cache.hpp")],
 None,["per-machine results","happens-before race detector","deadlock detector"])

prop("P06","Guest threads: wake-ups, contexts and thread ids follow the futex model",
 "A guest thread that waits on a futex word holding the expected value does not run again until a matching wake, exit notification or the all-blocked escape selects it, every wake releases min(count, matching waiters) waiters and reports that number, and no wake-up is lost, duplicated or delivered to a waiter on another address. Each guest thread always resumes with exactly the registers it had plus its system-call result, thread ids are unique and stable, and thread-exit clears and wakes the registered word and nothing else. Every runnable guest thread runs again within a bounded number of scheduling points.",
 ["schedules","histories","programs"],
 "all sequences of clone, yield, wait, wake (plain and bitset), exit, kill and tid registration by up to dozens of guest threads, under all budget slicings",
 "The tests run a few small pthread programs whose lock/wake order is fixed; lost wake-ups and stale scheduler entries need a particular order of wait, wake and exit across three or more threads.",
 ["posix/threads.cpp","posix/threads.hpp","linux/syscalls_threads.cpp"],
 [("suspended/blocked queues","posix/threads.cpp"),("futex operations","linux/syscalls_threads.cpp futex_op"),("thread exit and clear-tid","posix/threads.cpp Thread::exit")],
 [("ready and blocked queues","which guest threads may run","posix/threads.hpp")],
 ["system-call results per guest thread","register file at each resume","clear-tid words"])

prop("P07","Host-to-guest calls stay correct after timeouts, faults and nesting",
 "A host-to-guest call passes its arguments and returns the guest function's result regardless of what happened to earlier calls on that machine - completed, timed out, ended by a guest fault or by an exception thrown from a system-call handler - and each failure is reported to the host as the matching exception. A call made while the guest is suspended inside a system call, using the register-preserving form, leaves the interrupted guest's registers, live stack, budget and run state as they were, except for the result register, even when that call times out or throws.",
 ["histories","fault_sequences","schedules"],
 "all sequences of calls with any budget, argument kinds, nesting depth and faults at any point in the callee",
 "Tests call functions that succeed, one level deep; recovering state after an interrupted or nested call depends on where the interruption landed.",
 ["machine_vmcall.hpp","machine.hpp","machine_inline.hpp","threaded_dispatch.cpp","threaded_inaccurate_dispatch.cpp","tailcall_dispatch.cpp","tailcall_inaccurate_dispatch.cpp"],
 [("argument placement","machine_vmcall.hpp setup_call"),("register save/restore","machine_vmcall.hpp preempt"),("limit and exception reporting","machine_vmcall.hpp, threaded_dispatch.cpp")],
 None,["return values","exceptions","guest registers and stack bytes"])

prop("P08","The accelerated guest heap never hands out overlapping or lost memory",
 "For every history of allocate, zero-allocate, resize and free on the host-managed guest heap, live allocations are aligned, inside the heap, at least as large as requested and pairwise disjoint, contents survive resizing, and used plus free bytes always equal the heap size. A request that cannot be met - too large, heap full, bookkeeping limit reached or host allocation failing - fails cleanly and leaves every existing allocation and the accounting unchanged. When everything has been freed the whole heap is again available as one allocation.",
 ["histories","inputs","fault_sequences"],
 "all operation sequences and sizes up to the full 64-bit range, all bookkeeping limits, host allocation failure at any allocation",
 "Unit tests do a few allocations; splitting, merging, growing in place and failure in the middle of those need particular neighbour patterns.",
 ["native/heap.hpp","machine_accelerate.cpp"],
 [("split/merge/subsume of chunks","native/heap.hpp"),("chunk limit","native/heap.hpp new_chunk"),("heap system calls","machine_accelerate.cpp setup_accelerated_heap")],
 [("chunk list","address-ordered used and free ranges","native/heap.hpp")],
 ["returned pointers","bytes_used/bytes_free","guest heap contents"])

prop("P09","A machine that cannot be built fails cleanly and leaves nothing behind",
 "Building a machine from any byte string - truncated, torn, bit-flipped or hostile executables included - and with host memory running out at any point either succeeds or raises an exception the host can catch; it never reads outside the given bytes, crashes or hangs. A failed build releases everything it acquired, leaves memory donated by the host mapped and usable, and has no effect on any machine built before or after it.",
 ["inputs","fault_sequences","crash_points"],
 "all corruptions and truncations of executables, failure of the n-th host allocation or mapping for every n, all combinations of sharing and donated-memory options",
 "The tests load good executables with memory available; there is no test of a failing allocation and the failure point moves with every change.",
 ["elf_loader.cpp","memory.cpp","machine.cpp","decoder_cache.cpp","shared_exec_segment.cpp","util/crc32c.cpp"],
 [("executable header and segment validation","elf_loader.cpp"),("arena ownership","memory.cpp allocate_arena/free_arena/use_custom_arena"),("publication in the shared code cache","memory.cpp create_execute_segment")],
 None,["live mappings and allocations before/after","exceptions","behaviour of later machines"])

prop("P10","Decoded code reused between machines is always the right code",
 "A machine always executes exactly the instructions of its own program, whatever programs other machines loaded before, at whatever addresses and sizes, even when contents were chosen so that their checksums coincide, and whether its decoded code was created fresh, reused, or partly evicted or cleared in between. Decoded code stays alive as long as any machine can run it and an entry no machine uses any more can be dropped.",
 ["histories","programs","configurations"],
 "all histories of loading, running, resetting, evicting, clearing and destroying machines with related programs, sharing on or off per machine",
 "Tests share one program between a few machines; wrong reuse needs two specific programs and an order of loads and evictions.",
 ["shared_exec_segment.cpp","shared_exec_segment.hpp","memory.cpp","util/crc32c.cpp","decoded_exec_segment.hpp"],
 [("segment identity","shared_exec_segment.hpp SegmentKey"),("eviction","memory.cpp evict_execute_segments, shared_exec_segment.cpp remove_if_unique"),("content hash","util/crc32c.cpp")],
 None,["program results","shared cache size"])

prop("P11","Guest memory mappings are disjoint, zeroed and bounded",
 "Memory a guest obtains by mapping anonymous pages, without asking for a fixed address, lies wholly inside guest memory, is page aligned, reads as zero when it is handed out, and does not overlap the program image, the initial heap and stack areas or any mapping the guest still holds. When guest memory is exhausted the request fails with an error code and every existing mapping and its contents stay as they were.",
 ["histories","inputs","fault_sequences"],
 "all sequences of map and unmap calls with any address hint, length and flags, in machines of any memory size, including exhaustion",
 "The tests run programs that map a few times and never run out; reuse of returned pages and exhaustion depend on the order of calls.",
 ["memory.cpp","linux/syscalls.cpp"],
 [("bump allocation of guest pages","memory.cpp mmap_allocate/mmap_deallocate"),("map/unmap system calls","linux/syscalls.cpp")],
 [("next free guest page","where the next mapping goes","memory.hpp m_mmap_address")],
 ["system-call results","guest memory contents"])

prop("P12","Guest output reaches the host complete, once and in program order",
 "The bytes a guest writes to its standard streams arrive at the host's output in program order, each exactly once, and the byte count returned to the guest matches what was delivered, for single and scattered writes of any sizes, across guest threads and however the run is sliced. When part of a request is invalid or the host's output fails, what was delivered is a prefix of what the guest asked to write.",
 ["histories","schedules","fault_sequences","inputs"],
 "all sequences of write and writev calls with any lengths and addresses, all slicings, short writes and failures of the host stream",
 "Tests print small strings once; ordering and partial-request behaviour need large, empty or invalid pieces mixed with host-side failures.",
 ["linux/syscalls.cpp","machine.cpp"],
 [("write and writev system calls","linux/syscalls.cpp"),("print sink","machine.cpp Machine::print")],
 None,["bytes received by the host stream","system-call results"])

prop("P13","Guest time is host time, and clock errors reach the guest",
 "Every time value a guest reads - by clock query, time-of-day query or the timer instruction - equals what the host clock reported at that moment for the clock that was asked for, whatever jumps, stalls or skew the host clock shows. If the host clock cannot be read or the clock is unknown, the guest receives an error and its buffer is left alone; no stale, uninitialised or other host data is ever delivered.",
 ["fault_sequences","histories","inputs"],
 "all sequences of time queries with any clock ids and buffers, under any host clock behaviour including failure",
 "Tests run against the real clock of the test machine and cannot make it jump, stop or fail.",
 ["linux/syscalls.cpp","machine.cpp","la_instr_impl.hpp"],
 [("clock system calls","linux/syscalls.cpp"),("rdtime callback","machine.cpp rdtime")],
 None,["guest buffers and results","simulated clock log"])

prop("P14","Guest signal dispositions and alternate stacks are tracked per signal and thread",
 "The handler, flags and mask a guest sets for a signal are exactly what it later reads back and what takes effect when that signal is raised, independent of other signals, and an alternate stack set by one guest thread is used and reported only for that thread. Raising a handled signal enters the handler on the right stack, raising an unhandled one has the documented default effect, and out-of-range signal numbers never affect any other state.",
 ["histories","schedules","inputs"],
 "all sequences of disposition, alternate-stack and raise calls from several guest threads with any signal number",
 "There is one path through the tests (abort); the per-signal and per-thread bookkeeping is not exercised in combination with threads.",
 ["posix/signals.cpp","posix/signals.hpp","linux/syscalls.cpp","linux/syscalls_threads.cpp"],
 [("signal table and per-thread stacks","posix/signals.cpp"),("signal system calls","linux/syscalls.cpp")],
 None,["read-back structures","pc and sp on handler entry"])

prop("P15","Host-made guest strings and vectors keep their value and never leak",
 "Strings and vectors the host builds and edits in guest memory always hold the value of an ordinary string or vector after the same operations, in the layout guest code expects, and destroying or reassigning them returns all their guest memory. If the guest heap runs out in the middle of an operation the host gets an exception, the object keeps its previous value, and no guest memory is lost.",
 ["histories","fault_sequences","inputs"],
 "all operation sequences (construct, assign, push, pop, resize, reserve, clear, move, destroy, nested elements) with guest-heap exhaustion at any allocation",
 "Tests build objects with an almost empty heap; what happens when the n-th allocation fails is never reached.",
 ["guest_datatypes.hpp","native/heap.hpp","machine_vmcall.hpp"],
 [("small-string handling and reallocation","guest_datatypes.hpp"),("scoped ownership","guest_datatypes.hpp ScopedArenaObject")],
 None,["values read back","heap accounting"])

prop("P16","Failures raised while the guest runs reach the host and leave it usable",
 "An exception raised during a guest's execution - by the guest's own fault, thrown by a system-call handler, or posted by a handler for later delivery - reaches the host exactly once, from the run in which it was raised, with its own type and data, and no guest instruction after the faulting one takes effect. Afterwards the machine can be inspected, redirected, run and called again with correct results, and the guest can be continued from a posted exception as if it had not happened.",
 ["fault_sequences","crash_points","histories"],
 "all fault kinds at any instruction or system call, any order of faults, retries and resumptions, in every engine",
 "Tests check one exception per kind on a fresh machine and then discard the machine.",
 ["threaded_dispatch.cpp","threaded_inaccurate_dispatch.cpp","cpu.cpp","machine.hpp","machine_inline.hpp","tailcall_dispatch.cpp","tailcall_inaccurate_dispatch.cpp"],
 [("exception propagation and posted exceptions","threaded_dispatch.cpp stop_execution"),("system-call dispatch","machine_inline.hpp system_call")],
 None,["exceptions seen by the host","state after the exception"])

prop("P17","Just-in-time translation is invisible apart from speed",
 "With just-in-time translation enabled - compiled at once, or in the background and switched in at any moment while machines are running, paused, being created or destroyed - every guest gives the same registers, memory, system-call sequence and exceptions as with interpretation, and its instruction budget still bounds it. A translation that fails or arrives late never affects correctness, and no translated code or machine memory is used after it has been released.",
 ["schedules","programs","fault_sequences","configurations"],
 "all programs the translator accepts, all moments at which a background compilation can complete, compiler failure, all machine lifetimes relative to it",
 "The translator is off in the tested build and needs a compiler that is fetched from the network; even where tested, when a background compilation lands is up to the host scheduler.",
 ["tr_translate.cpp","tr_emit.cpp","tr_compiler.cpp","tr_api.cpp","decoded_exec_segment.cpp","decoded_exec_segment.hpp"],
 [("block selection and code emission","tr_translate.cpp, tr_emit.cpp"),("live-patching of the decoder cache","tr_translate.cpp"),("background compilation state","decoded_exec_segment.cpp")],
 None,["differential results against the interpreter"])

prop("P18","Replacing guest library functions by host ones changes nothing but speed",
 "Turning on the host-accelerated replacements for a guest's memory and string functions, before the run or while it is paused anywhere outside them, leaves every value those functions return (of comparisons: its sign), every byte they write, the guest's output and its later behaviour the same as when the guest runs its own versions, for all lengths, alignments, overlaps the function allows, and terminator positions up to the edge of guest memory.",
 ["inputs","schedules","histories","configurations"],
 "all argument combinations valid for the guest functions, all moments of activation",
 "Tests compare a few strings; results for embedded terminators, long strings and ranges ending at the edge of memory are not covered.",
 ["machine_accelerate.cpp","memory.cpp","threaded_dispatch.cpp"],
 [("function replacement in decoded code","machine_accelerate.cpp patch"),("native implementations","machine_accelerate.cpp")],
 None,["return values and memory after each call"])

prop("P19","A guest starts exactly as its executable and arguments say",
 "For every well-formed static executable that fits into the given memory - any number, order, size and placement of segments and executable sections - the machine's memory holds each segment's bytes at their addresses and zeros everywhere else, all code in its executable sections can be run and nothing outside executable segments can, its named functions are found at their addresses, and execution starts at its entry point. After the Linux set-up the guest finds on a 16-byte-aligned stack exactly the given arguments and environment strings and an auxiliary vector that describes its entry and program headers; arguments that do not fit on the stack are refused and nothing outside the stack is touched. This holds equally after failed attempts, in donated memory and beside any other machines.",
 ["inputs","histories","fault_sequences"],
 "all well-formed executables, argument lists and histories of building, failing to build, running and destroying machines, sharing decoded code or not, in own or donated memory",
 "The tests load executables from one linker with one layout (one executable segment, headers first) and a handful of short arguments.",
 ["elf_loader.cpp","memory.cpp","machine.cpp","cpu.cpp"],
 [("segment loading and executable ranges","elf_loader.cpp binary_loader"),("initial stack","machine.cpp setup_linux"),("symbol table","memory.cpp parse_symbol_table")],
 None,["guest memory compared with the executable","results of code in every executable section","initial stack and registers"])

prop("P20","System calls pass exactly the values meant and touch nothing else",
 "A host-installed system-call handler receives exactly the values the guest put in its argument registers and memory, for every type and position the host asks for (zero-terminated strings up to 4096 characters), and the guest gets back exactly the result the handler set; which handler runs is always the one the host installed last. The library's own handlers change no register but the result, no guest memory outside the buffers and lengths the guest named, and nothing of the host but the machine's output: no host file, descriptor, process, signal or environment variable is read or changed, and what they return depends only on guest state, the machine's earlier calls and the host clock. They answer as for a process that has its three standard streams and nothing else: input is at its end, no file exists, every other descriptor is bad, ids and limits are fixed, signal actions and the alternate stack read back as they were set, and a call that reports success has filled the whole buffer it was given for it. A number nobody handles reaches the host's unknown-call handler exactly once, with that number. Malformed requests end in an error code or a machine exception with all other state as it was.",
 ["inputs","histories"],
 "all system call numbers, forms and arguments, all handler signatures and result types, and all histories of calls and handler changes",
 "The tests make a few well-formed calls with integer arguments.",
 ["linux/syscalls.cpp","linux/syscalls_threads.cpp","machine_inline.hpp","machine.cpp"],
 [("argument and result decoding","machine_inline.hpp sysargs/set_result"),("Linux handlers","linux/syscalls.cpp"),("dispatch of unknown numbers","machine_inline.hpp system_call")],
 None,["registers and guest memory after every call","calls into the host's system interface (stand-ins)","what host handlers received"])

prop("P21","The emulator runs what its command line says and tells how it ended",
 "For every command line `laemu [options] program [arguments]`, in any spelling and order of the options, the program runs with exactly the memory and instruction limit asked for and is given its own path and all arguments behind it unchanged, even those that look like options of the emulator, and nothing of the host's environment. What it writes arrives on standard output in order and once, with nothing added in silent mode. The emulator's exit status is the program's own (its low 8 bits) exactly when the program ran to its end, 255 when it faulted, aborted or ran out of instructions, and 1 for a command line or file that cannot be used; the code and instruction count it prints are the true ones. When the host runs out of memory, the file cannot be read or is damaged, or the output device is full, it ends by itself with a status and message that do not claim success for a program that did not run, and never crashes.",
 ["inputs","fault_sequences","configurations"],
 "all command lines, programs and ways for a program to end, all limits at, below and above what the program takes, all allocation, mapping and read failures",
 "The tests drive the library; none runs the emulator.",
 ["emulator/src/main.cpp"],
 [("option parsing","emulator/src/main.cpp parse_arguments"),("running and reporting","emulator/src/main.cpp run_program"),("file checks","emulator/src/main.cpp main")],
 None,["exit status, standard output and standard error of the process"])

prop("N01","Instructions compute what the LoongArch manual says",
 "Every supported instruction computes the result the LoongArch reference manual specifies.",
 ["inputs"],"all encodings and operand values",
 "Unit tests sample operand values.",
 ["la_instr_impl.hpp","la64.cpp"],[("instruction handlers","la_instr_impl.hpp")])
prop("N02","Saving and restoring a machine preserves it",
 "A machine restored from a saved image continues exactly as the original would.",
 ["histories","crash_points"],"all machines and save points",
 "The feature is declared in the API but not implemented.",
 ["serialize.cpp","machine.cpp"],[("serialize_to/deserialize_from stubs","machine.cpp")])
prop("N03","Backtraces and disassembly describe the guest correctly",
 "Tracing back and disassembling guest addresses gives the symbol and text the executable defines for that address.",
 ["inputs"],"all executables and addresses",
 "Unit tests look up a few symbols.",
 ["memory.cpp","machine_backtrace.cpp","la_instr_printers.hpp"],[("symbol table search","memory.cpp lookup_symbol")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
for p in P:
    assert len(p["title"])<=80,p["id"]
