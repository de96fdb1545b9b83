# --- properties -------------------------------------------------------------------------------------------------
prop("C01", "A raw trace is the live call chain, sliced exactly by skip and max_depth",
 "A trace taken at any program point lists, innermost first, exactly one entry per live call frame, each lying in the call site that frame is suspended at, with no frame missing, invented, duplicated or out of order. Asking for any skip and max_depth, including 0, values past the outermost frame and the largest representable values, yields exactly the elements [skip, skip+max_depth) of that full sequence and never crashes. This holds for raw, object and resolved traces, for the free functions, the current() members and traces built from a signal handler, and for every unwinding back-end, up to the documented frame limit of the back-ends with a fixed buffer.",
 ["programs","inputs","configurations"],
 "every call chain (recursive, virtual, through function pointers, library callbacks, shared objects, signal frames, new threads), every skip and max_depth in size_t, every unwinder compiled in",
 "the tests sample a handful of fixed chains with small skip/max_depth; the slice law ranges over all chains and all of size_t x size_t, per back-end",
 ["src/cpptrace.cpp","src/unwind/unwind_with_unwind.cpp","src/unwind/unwind_with_libunwind.cpp","src/unwind/unwind_with_execinfo.cpp"],
 [("skip accounting (+1 per library frame, noinline)","src/cpptrace.cpp generate_*_trace/current"),("unwind loop, skip counter and depth bound","src/unwind/unwind_with_*.cpp capture_frames")],
 observe=["cpptrace::generate_raw_trace","raw_trace::current","generate_object_trace","generate_trace","ctrace_generate_raw_trace"])

prop("C02", "Resolving a trace names the true function, file and line of every frame",
 "Resolving a raw or object trace yields, for every input frame in input order, the logical frames at that address: any calls inlined there first (innermost first, marked inline; only by back-ends that report inlined calls) and then exactly one physical frame that keeps the raw address and, where the back-end determines one, the object address. Every name, file and line reported with full debug information is the one the compiler emitted for that call site, whichever module it lives in (executable, shared library, library loaded at run time; for libbacktrace, modules loaded before the first resolution). The answer for an address does not depend on which other addresses are in the trace, their number or order, earlier resolutions, or the cache mode, and an address that cannot be resolved still yields its one unnamed frame instead of disturbing its neighbours.",
 ["programs","inputs","histories","configurations"],
 "every multiset and order of code addresses from any loaded modules mixed with unresolvable ones, every trace length, every symbol back-end built here (addr2line, libbacktrace, libdl)",
 "tests resolve a few live traces of one executable; batching, grouping by object and re-assembly can go wrong only for particular mixes of modules, duplicates, inlines and unresolvable addresses",
 ["src/symbols/symbols_core.cpp","src/symbols/symbols_with_addr2line.cpp","src/symbols/symbols_with_libbacktrace.cpp","src/symbols/symbols_with_dl.cpp","src/cpptrace.cpp"],
 [("grouping frames by object and re-assembling inlines in order","src/symbols/symbols_core.cpp collate_frames, src/symbols/symbols_with_addr2line.cpp resolve_frames"),("addr2line output parsing","src/symbols/symbols_with_addr2line.cpp update_trace")],
 observe=["raw_trace::resolve","object_trace::resolve","generate_trace"])

prop("C03", "Object frames name the containing module and the link-time address",
 "For every address inside a loaded module, the object frame carries the path of the file mapped at that address and the address that instruction has in the file's own link-time address space (what addr2line expects), and for an address in no module it carries an empty path and object address 0. The raw address is always preserved unchanged. The same answer is given by live traces, by converting raw traces, by frame object-info queries and by safe object frames, over any history of loading and unloading libraries.",
 ["inputs","histories","programs","configurations"],
 "every address of the process image and outside it, position-dependent and position-independent modules, prelinked (non-zero base) modules, every dlopen/dlclose history",
 "tests check one address of one position-independent executable",
 ["src/binary/object.cpp","src/binary/module_base.cpp","src/binary/elf.cpp","src/binary/safe_dl.cpp"],
 [("load-bias subtraction via dynamic linker lookup","src/binary/object.cpp get_frame_object_info"),("link-time base from program headers","src/binary/elf.cpp get_module_image_base"),("signal-safe lookup","src/binary/safe_dl.cpp get_safe_object_frame")],
 observe=["raw_trace::resolve_object_trace","stacktrace_frame::get_object_info","get_safe_object_frame"])

prop("C04", "Safe tracing is async-signal-safe and agrees with normal tracing",
 "Generating a safe raw trace and looking up safe object frames, from any interrupted point of the program, performs no heap allocation, takes no lock, touches no stdio and leaves every descriptor as found, when the documented warm-up call was made. It writes exactly the reported number of entries, never more than min(size, max_depth), into the caller's buffer, and they equal the frames an ordinary trace reports from the same point with the same skip. A safe object frame always holds the given raw address and a NUL-terminated path, and resolves later to the same object frame an ordinary lookup gives.",
 ["schedules","inputs","programs"],
 "every interruption point (signal delivered inside malloc, inside stdio, inside the library itself, on any thread), every buffer size, skip and depth, every address and module path length",
 "a deadlock or corruption appears only when the signal lands inside a critical section; the tests never deliver one there",
 ["src/cpptrace.cpp","src/unwind/unwind_with_libunwind.cpp","src/binary/safe_dl.cpp","src/ctrace.cpp"],
 [("stack-only unwinding into a caller buffer","src/unwind/unwind_with_libunwind.cpp safe_capture_frames"),("_dl_find_object and fixed-size path copy","src/binary/safe_dl.cpp")],
 observe=["safe_generate_raw_trace","get_safe_object_frame","safe_object_frame::resolve"])

prop("C05", "The formatter prints exactly what its options say, on every sink",
 "For every trace and every combination of options, the formatted text is determined by the documented rules: header, one line per visible frame numbered from 0 with filtered frames keeping their number (as placeholders or omitted), transform applied before filter, address, symbol, path, line and column shown in the selected modes, filename break aligned under the symbol, exception machinery hidden, '<empty trace>' when empty. An explicit color argument overrides the configured color mode, escape sequences are balanced, and removing them gives the uncolored text. Formatting to a string, an ostream or a FILE gives the same bytes up to one final newline, never modifies the trace, and copies, assignments (including to itself) and moves of a formatter carry all options and stay independent.",
 ["inputs","histories"],
 "all traces (any length, empty names, missing lines/columns, inline frames, machinery frames anywhere) x all option combinations x all sinks x histories of setter, copy, move and assignment operations",
 "tests cover a few dozen fixed strings; the option space is a product of over ten independent settings times arbitrary frames",
 ["src/formatting.cpp","src/cpptrace.cpp","src/utils/microfmt.hpp"],
 [("frame and trace writers","src/formatting.cpp write_frame/write_trace"),("color decision","src/formatting.cpp should_do_color"),("option ownership","src/formatting.cpp formatter copy/move")],
 observe=["formatter::format","formatter::print","stacktrace::to_string","stacktrace_frame::to_string","operator<<"])

prop("C06", "Source snippets show the right lines of the file, or nothing",
 "For any readable text file, line and context size, a snippet consists of the lines max(1,line-context)..min(last,line+context) minus blank lines at either edge away from the target, each with its own number and its exact text, with the target line marked and, when a column is given, a caret under that column. For missing, unreadable, oversized or non-regular files, and for lines outside the file, no line is invented and nothing crashes, hangs or throws. Colors only add escape sequences around the same text, and snippets inside a formatted trace are the same text as a direct query.",
 ["inputs","configurations"],
 "every file content (empty, no final newline, CRLF, very long or blank lines, binary), every path kind, every line, column and context size",
 "tests query a few lines of one source file",
 ["src/snippets/snippet.cpp","src/formatting.cpp"],
 [("line table","src/snippets/snippet.cpp build_line_table"),("window clipping and blank trimming","src/snippets/snippet.cpp get_lines")],
 observe=["cpptrace::get_snippet","formatter with snippets(true)","stacktrace::print_with_snippets"])

prop("C07", "Pruning a symbol keeps its qualified name and nothing else, for any input",
 "For every demangled C++ function symbol, the pruned symbol is the function's qualified name with return type, template arguments, parameters and qualifiers removed, and operators, conversion operators, lambdas, local classes and anonymous namespaces retained; pruning a pruned name does not change it. For every other byte string the call terminates without reading outside the input, overflowing the stack or throwing, and returns the input unchanged whenever it cannot be parsed.",
 ["inputs"],
 "all strings; in particular all symbols a C++ compiler and demangler can produce and all malformed, truncated or deeply nested variants of them",
 "the tests are a fixed list of symbols; the parser's cursor arithmetic fails only on particular truncations, escapes and nestings",
 ["src/prune_symbol.cpp","src/utils/string_view.cpp"],
 [("tokenizer and recursive-descent symbol parser","src/prune_symbol.cpp")],
 observe=["cpptrace::prune_symbol","formatter symbols(pruned)"])

prop("C08", "Prettifying a symbol only applies its documented rewrites",
 "For every symbol, prettifying normalises '> >' to '>>', comma spacing to ', ', drops 'class '/'struct ' keywords, and folds std::basic_string<char...>, basic_string_view<char...>, allocator and default_delete template arguments and inline ABI namespaces, and changes nothing else. For symbols a demangler produces the result is a fixed point of prettifying, and for every input at all the call terminates without crashing or throwing.",
 ["inputs"],
 "all strings, in particular all nestings of standard library templates, unbalanced and truncated template argument lists",
 "tests cover a handful of symbols; regex-driven rewriting with bracket matching fails on particular nestings, repetitions and truncations",
 ["src/formatting.cpp","src/utils/replace_all.cpp"],
 [("ordered rewrite rules","src/formatting.cpp prettify_symbol"),("balanced template replacement","src/utils/replace_all.cpp replace_all_template")],
 observe=["cpptrace::prettify_symbol","formatter symbols(pretty)"])

prop("C09", "Demangling is total and agrees with the C++ ABI",
 "For every mangled name, alone or followed by a space and any suffix, with or without a doubled leading underscore, the demangled text is the one the platform ABI demangler gives plus the untouched suffix, and every string that is not a mangled name is returned unchanged. No input crashes, leaks, throws or reads out of bounds, and the C entry point agrees with the C++ one.",
 ["inputs"],
 "all strings: valid manglings of arbitrary entities, truncated, mutated and arbitrary bytes",
 "tests use a few names",
 ["src/demangle/demangle_with_cxxabi.cpp","src/utils.cpp","src/ctrace.cpp"],
 [("prefix/suffix handling around __cxa_demangle","src/demangle/demangle_with_cxxabi.cpp")],
 observe=["cpptrace::demangle","ctrace_demangle"])

prop("C10", "Object files are parsed correctly, and never trusted",
 "For every well-formed ELF object, 32- or 64-bit, little- or big-endian, from disk or memory, the parser reports the true link-time base, the code ranges of its .text sections and the symbol at an address. For every other byte sequence, truncated, corrupted or hostile, opening, registering and querying it returns an error or no result, without out-of-bounds access, undefined behaviour, unbounded memory or an escaping exception. A failed query never changes the answer of a later one.",
 ["inputs","histories"],
 "all byte strings as object files, all sequences of queries on one object, both in-memory registration and files on disk",
 "tests parse only the test binaries themselves; every length, offset, count, index and name field is attacker-chosen here",
 ["src/binary/elf.cpp","src/utils/io/memory_file_view.cpp","src/utils/io/file.cpp","src/utils/io/base_file.hpp","src/jit/jit_objects.cpp"],
 [("bounds-checked reads","src/utils/io/memory_file_view.cpp, src/utils/io/file.cpp"),("section/string/symbol table loading","src/binary/elf.cpp"),("byte order normalisation","src/binary/elf.cpp byteswap_if_needed")],
 observe=["register_jit_object","elf::open and its queries","get_module_image_base"])

prop("C11", "JIT registration behaves as a map from live objects to code ranges",
 "After any sequence of registering, unregistering and clearing in-memory objects, looking up an address finds exactly the currently registered object whose code range contains it, and nothing for addresses covered only by unregistered, cleared or never accepted objects. Range ends are exclusive, neighbouring and unsorted registrations do not shadow one another, and unregistering one object leaves all others reachable. After an object is unregistered the library never touches its memory again.",
 ["histories","inputs"],
 "all interleaved histories of register/unregister/clear/lookup over many objects with adjacent, reused and multi-section ranges, including memory freed or reused after unregistration",
 "the tests have no history-based check of the registry",
 ["src/jit/jit_objects.cpp","src/binary/elf.cpp"],
 [("sorted range list with upper-bound insertion","src/jit/jit_objects.cpp add_jit_object"),("predecessor search","src/utils/utils.hpp first_less_than_or_equal")],
 observe=["register_jit_object","unregister_jit_object","clear_all_jit_objects","address lookup used by resolution"])

prop("C12", "The current-exception trace is the trace of the throw that was caught",
 "The current-exception trace is the live call chain at the last throw that reached a handler of the tracing try/catch facility (macros or try_catch) on this thread, starting in the frames of the throwing function (after the documented exception machinery) and ending at the thread's outermost frame, for any exception type, any matching handler type, any depth and any earlier history; inside a handler that is the throw being handled unless a later traced throw was handled in between. Rethrowing through the library keeps that trace and additionally records the rethrow point's chain; an ordinary new throw that reaches a tracing handler replaces the trace and clears the rethrow record; throws caught by ordinary handlers, or by handlers of non-matching type, change neither. Each thread only ever sees its own traces, and clearing empties both.",
 ["histories","programs","schedules"],
 "every history of nested tries, throws, rethrows, exceptions handled inside destructors and handlers, handler type lists, on any number of threads",
 "tests check a few fixed shapes; the thread-local state machine depends on the order of arbitrarily nested throw/catch/rethrow events",
 ["src/from_current.cpp","include/cpptrace/from_current.hpp","include/cpptrace/from_current_macros.hpp","src/exceptions.cpp"],
 [("search-phase interception via a patched type_info vtable","src/from_current.cpp perform_typeinfo_surgery, maybe_collect_trace"),("thread-local current and rethrow holders, rethrow switch","src/from_current.cpp save_current_trace, rethrow"),("innermost-first chain of interceptors","include/cpptrace/from_current.hpp try_catch_impl")],
 observe=["from_current_exception","raw_trace_from_current_exception","from_current_exception_rethrow","current_exception_was_rethrown"])

prop("C13", "Tracing try/catch never changes what ordinary try/catch would do",
 "Replacing any try/catch by the tracing macros or try_catch leaves the program's behaviour unchanged: the same handler runs, first match in listed order, with the same exception object and type, the same destructors run in the same order, unmatched exceptions keep propagating, and uncaught-exception counts and current exceptions are the same. Rethrowing through the library throws the same exception object. Preparing the facility leaves every page's protection as it was.",
 ["programs","histories"],
 "every program of nested try/catch blocks over class hierarchies with multiple and virtual inheritance, pointers, references, catch-all, and every handler order",
 "tests exercise single shapes; handler selection depends on the interplay of the interceptor with all handler types and nestings",
 ["src/from_current.cpp","include/cpptrace/from_current.hpp","include/cpptrace/from_current_macros.hpp","src/platform/memory_mapping.cpp"],
 [("interceptor always declines the exception","include/cpptrace/from_current.hpp unwind_interceptor::can_catch"),("page protection save/restore","src/platform/memory_mapping.cpp mprotect_page_and_return_old_protections")],
 observe=["program event log","/proc/self/maps"])

prop("C14", "Concurrent use from any threads is race-free and gives sequential answers",
 "Any mix of trace generation, resolution, formatting, snippets, demangling, pruning, traced exceptions, current-exception traces and option or logger changes running concurrently on many threads is free of data races, deadlocks and crashes. Every call returns what it would have returned had it run alone.",
 ["schedules","histories"],
 "every interleaving of every mix of documented thread-safe calls, including the first-use initialisation of each component",
 "unit tests are single-threaded or run one fixed scenario; races and lock-order problems depend on the schedule",
 ["src/snippets/snippet.cpp","src/binary/module_base.cpp","src/binary/elf.cpp","src/symbols/symbols_with_addr2line.cpp","src/symbols/symbols_with_libbacktrace.cpp","src/from_current.cpp","src/options.cpp","src/logging.cpp","src/cpptrace.cpp"],
 [("mutex-guarded caches","src/snippets/snippet.cpp get_manager, src/binary/module_base.cpp, src/binary/elf.cpp open_elf_cached"),("atomics for options","src/options.cpp, src/logging.cpp"),("thread_local exception state","src/from_current.cpp")],
 observe=["ThreadSanitizer reports","per-call results compared with a sequential reference"])

prop("C15", "Traced exception objects are faithful values",
 "A traced exception carries the trace of the point where it was constructed (first frame: the constructing function, or after the requested skip), its message is exactly the one given (system errors append the error text and expose the code; nested exceptions describe and return the wrapped exception), and what() is the message followed by ':' and the formatted trace. These answers are the same however often, in whatever order and through whichever copy, assignment or move of the object they are asked for, and wrapping leaves already-traced exceptions untouched while wrapping any other into a nested exception. None of this throws out of a noexcept call or touches freed memory.",
 ["inputs","histories","programs"],
 "all exception types, messages and error codes, all histories of copy, move, (self-)assignment, what/message/trace queries and rethrow-and-wrap",
 "tests check each type once, freshly constructed",
 ["src/exceptions.cpp","include/cpptrace/exceptions.hpp","include/cpptrace/exceptions_macros.hpp"],
 [("lazy trace holder (tagged union)","src/exceptions.cpp lazy_trace_holder"),("memoised what and nested message","src/exceptions.cpp lazy_exception::what, nested_exception::message")],
 observe=["exception::what/message/trace","rethrow_and_wrap_if_needed","CPPTRACE_WRAP"])

prop("C16", "Faults in tracing are absorbed: the trace degrades, the program does not",
 "When the environment fails underneath the library (the helper process cannot be started, dies, hangs up, prints garbage, too little or too much, pipes, forks, reads, waits or opens fail or are interrupted, files vanish or are unreadable, memory maps cannot be read), generating and resolving traces still returns one entry per frame with raw and object addresses intact, with only the details the failed step would have supplied missing. With absorption on (the default) no exception escapes; with it off, failures the library detects may surface as exceptions but nothing is corrupted or leaked. An interrupted system call costs no information, and later calls, once the fault is gone, give complete answers again, except that a helper program or file found to be absent or damaged may be remembered as such. (A helper that never finishes is out of scope.)",
 ["fault_sequences","crash_points","inputs"],
 "every placement of a failure, short or interrupted result at each system call the library makes, every helper output, every sequence of faulty and healthy calls",
 "the tests never inject a fault; error paths are unexecuted",
 ["src/symbols/symbols_with_addr2line.cpp","src/symbols/symbols_core.cpp","src/cpptrace.cpp","src/options.cpp","src/logging.cpp","src/utils/io/file.cpp","src/exceptions.cpp"],
 [("try/catch + absorb policy","src/logging.cpp log_and_maybe_propagate_exception, src/cpptrace.cpp"),("helper process plumbing","src/symbols/symbols_with_addr2line.cpp resolve_addresses")],
 observe=["resolved trace under fault","descriptor table and child processes after the call"])

prop("C17", "The C API is a faithful, leak-free view of the C++ API",
 "Every C API call returns what the corresponding C++ call returns: the same frames, counts, symbols, files, lines, inline flags, text and demangled names, for raw, object and resolved traces, converted between each other, printed or stringified, for all skips and depths. Whatever it returns is owned by the caller and freed exactly once by the matching free call, after which handles are inert; null and empty handles are accepted everywhere. No sequence of calls leaks, double-frees or reads freed memory.",
 ["inputs","histories"],
 "all call sequences of the C API over all traces, including empty traces, zero-length and null names, repeated frees",
 "the C tests call each function once on one trace",
 ["src/ctrace.cpp","include/ctrace/ctrace.h"],
 [("deep-copied owning strings and counted frame arrays","src/ctrace.cpp c_convert/cpp_convert, ctrace_free_*")],
 observe=["ctrace_* results against cpptrace results","AddressSanitizer/LeakSanitizer"])

prop("C18", "The terminate handler always reports the pending exception and aborts",
 "With the terminate handler registered, any uncaught exception of any type, on any thread, ends the process by abort after writing to stderr one description of it: for a traced exception its type and message with its own trace, for a standard exception its type and what() with the current trace, for any other a notice and the current trace, and with no exception a plain notice and the current trace. It does so once, never recurses or hangs, prints nothing on stdout, and colors only if stderr is a terminal.",
 ["programs","inputs"],
 "every thrown type and value, every thread, main-thread and static-init/noexcept/destructor origins, any what() text",
 "the unit suite has no process-terminating test",
 ["src/cpptrace.cpp","src/exceptions.cpp","src/platform/exception_type.hpp","src/utils.cpp"],
 [("terminate handler","src/utils.cpp / src/cpptrace.cpp register_terminate_handler, terminate_handler")],
 observe=["exit signal, stdout and stderr of child processes"])

prop("C19", "Tracing leaves no residue in the process",
 "After any number of trace generations, resolutions, exceptions and object registrations, failed or successful, the process has the same child processes, signal mask and dispositions, page protections and, once its caches of the modules and files seen are warm, the same descriptors and heap usage as before, and descriptors are never closed that the library did not open. stdout, stdin and the environment are untouched.",
 ["histories","fault_sequences"],
 "every history of library calls, with descriptors 0-2 open or closed, with children and signal handlers of the program's own, and under injected failures",
 "leaks show only as growth over many calls or on failure paths; tests run each call a few times",
 ["src/symbols/symbols_with_addr2line.cpp","src/platform/memory_mapping.cpp","src/utils/io/file.cpp","src/snippets/snippet.cpp","src/from_current.cpp"],
 [("pipe/fork/exec/wait bookkeeping","src/symbols/symbols_with_addr2line.cpp"),("RAII file handles","src/utils/utils.hpp raii_wrapper")],
 observe=["/proc/self/fd, /proc/self/maps, wait4, sigprocmask, mallinfo"])

prop("C20", "Diagnostics go exactly where and when they were asked for",
 "The library's own diagnostics reach only the configured sink: at or above the configured level exactly once per event to the configured callback (with that level and text) or, with the default stderr logger, to stderr, below the level nowhere, and never to stdout; with no sink configured they go nowhere. Changing the level or the callback, including to none, takes effect for every later diagnostic on every thread, and the latest setting wins. Whether failures are absorbed or propagated never depends on the logger, and an empty callback is harmless.",
 ["histories","configurations"],
 "every sequence of level/callback/absorb settings interleaved with operations that raise diagnostics",
 "tests install one callback at one level",
 ["src/logging.cpp","src/logging.hpp","src/options.cpp","src/utils/error.cpp"],
 [("level filter and callback dispatch","src/logging.cpp")],
 observe=["callback invocations","captured stderr/stdout"])

prop("C21", "Public value types and helpers obey their value laws",
 "Nullable integers behave as optional integers for every value except the sentinel: has_value, value, value_or, reset, swap, equality and null agree with a reference optional. Traces and frames behave as containers and values: iteration visits the frames in order, empty and clear mean what they say, frame equality is an equivalence relation that distinguishes frames differing in any address, line, column, file or symbol, and basename returns what follows the last path separator of any path (the separators of both platforms count, as a trace may come from either).",
 ["inputs","histories"],
 "all integer values of all widths, all strings and all operation sequences",
 "tests check a couple of constants",
 ["include/cpptrace/basic.hpp","src/cpptrace.cpp","src/formatting.cpp","src/utils/utils.hpp"],
 [("sentinel encoding","include/cpptrace/basic.hpp nullable"),("path splitting","src/utils/utils.hpp basename")],
 observe=["public member functions"])

prop("C24", "The library's containers and text helpers agree with their models",
 "The helpers the rest of the library is built from do what their names say for every input: split, join, trim, replace_all, the string views and prefix/suffix tests agree with the standard library's strings; formatted printing gives every value in every base, width, fill and alignment; byte swapping is an involution reversing the bytes; the search for the last element not above a key finds it; the bounded cache keeps exactly the most recently used entries; optional and Result hold exactly what they were given and destroy each value once; guards and wrappers run their action exactly once; reading a file or a memory range gives exactly its bytes, or an error when the range is not wholly inside it, and never touches memory outside the destination.",
 ["inputs","histories"],
 "all strings, numbers, format strings, cache histories, value histories and file ranges",
 "tests sample a few constants of each helper",
 ["src/utils/utils.hpp","src/utils/string_view.cpp","src/utils/replace_all.cpp","src/utils/microfmt.hpp","src/utils/lru_cache.hpp","src/utils/optional.hpp","src/utils/result.hpp","src/utils/io/file.cpp","src/utils/io/memory_file_view.hpp"],
 [("eviction order","src/utils/lru_cache.hpp"),("format string interpreter","src/utils/microfmt.hpp"),("range checks","src/utils/io/memory_file_view.hpp read_bytes")],
 observe=["the helpers themselves, through the library's headers"])

prop("C22", "The DWARF reader resolves every frame to its true source location",
 "With the built-in DWARF reader, every address in code with debug information resolves to the compiler's function, inline chain, file, line and column, for every DWARF version, split or packed debug information and cache setting.",
 ["inputs","programs","configurations"],
 "all DWARF producers, versions and encodings",
 "tests use the debug information of the test binary only",
 ["src/symbols/dwarf/dwarf_resolver.cpp","src/symbols/symbols_with_libdwarf.cpp","src/utils/lru_cache.hpp"],
 [("DIE tree walk, line tables, range lists","src/symbols/dwarf/dwarf_resolver.cpp")],
 observe=["raw_trace::resolve"])

prop("C23", "Windows and macOS back-ends give the same guarantees",
 "The capture, resolution, object-frame and exception-trace guarantees hold on Windows (dbghelp, PE) and macOS (Mach-O, debug maps) as they do on Linux.",
 ["configurations","inputs"],
 "all supported non-Linux platforms",
 "the tests here run on Linux only",
 ["src/binary/pe.cpp","src/binary/mach-o.cpp","src/symbols/symbols_with_dbghelp.cpp","src/unwind/unwind_with_dbghelp.cpp"],
 [("platform back-ends","src/symbols/symbols_with_dbghelp.cpp, src/binary/mach-o.cpp")])

NOT_APPLICABLE = {
 "C22": "libdwarf is not installed and cannot be fetched, so the DWARF reader is not compiled in any configuration here; runtime monitoring needs executions of it.",
 "C23": "Windows and macOS code cannot be compiled or executed in this Linux sandbox; runtime monitoring needs executions of it.",
}

# --- checks (only what is built) ---------------------------------------------------------------------------------
CHECKS = {}
def check(id, technique, note, level="exploration"): CHECKS[id] = dict(technique=technique, note=note, level=level)
check("C01", "runtime monitoring under ASan/UBSan: traces of generated call programs against a ground-truth shadow call chain",
      "random call programs (recursion, virtual calls, callbacks, threads, signals, dlopened code) in every Linux unwinder configuration; the recorded call chain is the oracle; samples inputs, not exhaustive")
check("C02", "runtime monitoring under ASan: resolution of traces from generated call sites against compiler-recorded line numbers and across entry points, for each symbol back-end",
      "sites of known function, file and line in the executable and in loaded modules; batches of random composition and size; all resolution entry points compared with each other")
check("C03", "runtime monitoring under ASan: object frames against the load map and program headers of generated modules",
      "modules linked at odd bases, alignments and paths, loaded, unloaded, replaced and deleted; oracle is /proc/self/maps and the module's own program headers")
check("C04", "runtime monitoring: interposed allocator, locks, stdio and descriptors while signals interrupt busy threads anywhere; differential against ordinary traces",
      "sampled interruption points including inside malloc, the loader, exception handling and the library; safe and ordinary traces compared for random skip, size and depth")
check("C05", "runtime monitoring under ASan/UBSan: formatter output against an independent executable specification over random traces, options and histories",
      "model-based: random setter/copy/move histories and traces, all sinks compared byte for byte")
check("C06", "runtime monitoring under ASan/UBSan: snippets against an independent reference reader on generated files",
      "generated source files with hostile content, lines, columns and context sizes")
check("C07", "runtime monitoring under ASan/UBSan: pruned names against generated ground truth, hostile mutations and the compiler's own demangled corpus",
      "grammar-generated C++ signatures with known answer, mutated and random strings, symbols of the installed libraries")
check("C08", "runtime monitoring under ASan/UBSan: prettified symbols against generated ground truth, idempotence and token-conservation monitors",
      "grammar-generated types with known answer plus mutations and real symbols")
check("C09", "runtime monitoring under ASan/UBSan: demangling against the C++ runtime on real, mutated and random symbols",
      "differential on symbols of the installed libraries, mutations and random strings")
check("C10", "runtime monitoring under ASan/UBSan: ELF reading against the generator's ground truth and on corrupted images",
      "generated ELF images of both classes and byte orders with known symbol tables, corrupted at random and at targeted fields")
check("C11", "runtime monitoring under ASan: JIT registration histories against a reference map of live objects",
      "random register/unregister/clear/GDB-interface histories of generated in-memory objects, resolved against the model")
check("C12", "runtime monitoring: random try/throw/rethrow programs against a model of the thread's two trace slots and the recorded call chain of each throw, also under ASan/UBSan",
      "programs of nested tries, handlers, destructors, stored exceptions and threads in seven back-end and compiler configurations; samples programs")
check("C13", "runtime monitoring: event logs of the same program run with tracing try/catch and with plain try/catch, page protections and typeinfo bytes monitored",
      "differential on random programs of nested handlers; loaded libraries with their own interceptors; page protections compared before and after")
check("C14", "runtime monitoring under ThreadSanitizer: random mixes of calls on many threads, each answer compared with what the same call answers alone",
      "random mixes and thread counts, processes started cold; schedules are those the system and the instrumentation's delays produce; ASan and plain configurations judge answers and crashes only")
check("C15", "runtime monitoring under ASan/UBSan: histories of traced exception objects against a value model and the call chain recorded at construction",
      "random copy/move/assign/self-assign/throw/store/wrap histories with failing allocations")
check("C16", "runtime monitoring with fault injection: every resolution under enumerated system call failures, signals, misbehaving helpers and vanished files, against the stand-in helper's known answers; descriptor, child and signal state compared around every call",
      "fault positions in one resolution are enumerated, surroundings sampled or enumerated, helper outputs sampled; a helper that never ends is out of scope")
check("C17", "runtime monitoring under ASan/UBSan: C API histories next to the C++ calls on the same input, live handles re-read, allocated bytes compared after repeated histories",
      "random histories of C API calls over live and synthetic traces; allocation failure not injected")
check("C18", "runtime monitoring of child processes: exit status, stdout and stderr of generated terminations against the expected description and the known call chain, also under ASan/UBSan",
      "origins and exception kinds enumerated, their combinations and the surroundings sampled; memory exhaustion out of scope")
check("C21", "runtime monitoring against reference models (std::optional, std::vector, a re-derived basename) under ASan/UBSan: random operation histories of the public value types",
      "8- and 16-bit nullables enumerated, the rest sampled")
check("C24", "runtime monitoring against reference models under ASan/UBSan: random inputs and histories of the internal containers, formatting and text helpers",
      "random inputs and histories")
check("C20", "runtime monitoring of the diagnostics' sinks (callbacks, captured stdout and stderr) against a model of the configuration over random histories, with allocation and reader failures injected; under ASan/UBSan, and TSan for the switching of sinks",
      "the events an operation raises are taken from a reference run, plus their number and kind where known; histories sampled")
check("C19", "runtime monitoring of the process around every library call (descriptors, children, signal state, page protections, environment, streams, limits) and of live allocations over repetitions; under ASan/LSan too, with allocation failures, broken helpers and closed descriptors injected",
      "random call sequences in sampled surroundings, one allocation failure per call; growth below one allocation per four repetitions is not seen in plain builds")
