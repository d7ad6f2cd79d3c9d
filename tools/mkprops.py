#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
T = "src/templates/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

H = ["histories", "fault_sequences", "configurations", "programs"]
RTQ = ("every prototype list, output format (c, c++, and where they apply plugin, minimal, minimal-c++), option set, macro configuration and target platform (simulated: Linux with glibc, musl or PROCMAP_QUERY, Android, BSD, Solaris, macOS, AIX, Windows API narrow and wide, dlopen on Windows); "
       "every sequence of public API calls; every pattern of success and failure of the dynamic loader's calls ")

p("C01", "Load results and state queries tell the truth",
  "In the generated C and C++ APIs a load call returns success exactly when the system loader granted the library, asking it once with exactly the caller's file name (on Windows with path separators normalised), flags and namespace choice (or the configured default name and flags); an empty or null name, or a load while a library is loaded, fails without touching the loader or the loaded library. "
  "The all-, any- and no-symbols-loaded queries and the library-is-loaded query always agree with what is really loaded, and every symbol-loading call returns true exactly when the requested symbols are usable afterwards. "
  "A release whose underlying close fails reports failure and leaves library and symbols as they were; a forced release always leaves nothing loaded.",
  H, RTQ + "including a refused open, a missing or transiently failing symbol lookup and a refused close.",
  "The tests load one real library that always succeeds, in one call order; they never see a refused open, a failed lookup in the middle of a list, a failing close, or a call made in the wrong state.",
  [T+"c.c", T+"c.h", T+"cxx.cpp", T+"cxx.hpp", T+"common.c"],
  [("state derived from the saved handle and pointers", T+"c.c gdo_lib_is_loaded, gdo_all_symbols_loaded; "+T+"cxx.cpp lib_loaded"), ("early-out checks before calling the loader", T+"c.c gdo_load_lib_args; "+T+"cxx.cpp load_filename")],
  ["return values of the public API", "the sequence of calls the simulated loader received"],
  [("library handle", "handle returned by the loader, null when nothing is loaded", T+"c.h struct _gdo_handle; "+T+"cxx.cpp m_handle"), ("symbol pointers", "one per declared symbol", T+"c.h; "+T+"cxx.cpp")])

p("C02", "Every library handle is released exactly once and never used after",
  "Every library handle the loader granted to generated code (C and C++ APIs) is owned until exactly one successful release: it is never dropped while open, never closed twice, and never passed to any loader call after it was closed. "
  "Releasing with nothing loaded is a harmless success; automatic release at exit, the C++ destructor and a failed auto-load close a still-open handle, and a C++ object whose automatic freeing was disabled does not.",
  H, RTQ + "including failing closes, a failing exit-handler registration, destruction order of several loader objects, and process exit at any point of the history.",
  "A leaked or doubly closed handle has no visible effect with a real libhelloworld; the tests exit right after, and no test lets a close fail or exits half-way.",
  [T+"c.c", T+"cxx.cpp", T+"common.c"],
  [("free paths reset handle and pointers together", T+"c.c gdo_free_lib, gdo_force_free_lib; "+T+"cxx.cpp free, ~dl"), ("exit handler registered once", T+"c.c gdo_enable_autorelease")],
  ["handle table of the simulated loader", "exit-handler list of the simulated process"])

p("C03", "A symbol pointer is null or the exact symbol of the current library",
  "In the generated C and C++ APIs each symbol's pointer is at all times either null or exactly the address that the currently loaded library exports under exactly that symbol's declared name, and it is null again after the library was released. "
  "Loading one symbol by number or by name affects that symbol only, loading all covers every declared symbol, and a name or number that is not in the declared set is refused without changing anything.",
  H, RTQ + "over symbol sets with shared prefixes, names that are prefixes of one another, functions mixed with objects, and look-up names that nearly match.",
  "The tests use one fixed symbol list and one library; they cannot show that no list, name, order or earlier failed or released library makes a pointer stale, crossed or left behind.",
  [T+"c.c", T+"c.h", T+"cxx.cpp", T+"cxx.hpp", "src/generate.cpp", "src/substitute.cpp", "src/parse.cpp"],
  [("name comparison after common-prefix check", T+"c.c gdo_load_symbol_name; "+T+"cxx.cpp load_symbol; src/generate.cpp get_common_prefix"), ("per-symbol expansion of template lines", "src/substitute.cpp")],
  ["symbol pointers read through the public aliases after every call"])

p("C04", "A failing call leaves its own diagnostic, a succeeding call leaves none",
  "After a failing call of the generated C or C++ API the last-error text is non-empty, is about that failure and carries the system loader's own message when the loader produced one (truncated to the buffer if it is longer); after a successful call it is the neutral no-error text. "
  "It never shows an earlier failure, never is an empty or null string, and is stored intact whatever bytes the loader's message, the file name or the symbol name contain.",
  H, RTQ + "over loader messages of any length up to far beyond the internal buffer and with arbitrary bytes such as format directives, and loader message buffers that are overwritten by the next loader call.",
  "The tests print the error and never look at it; stale messages and overlong or format-like messages need a failing loader to appear.",
  [T+"c.c", T+"cxx.cpp"],
  [("clear at entry, save at failure", T+"c.c _gdo_clear_error, _gdo_save_error; "+T+"cxx.cpp clear_error, save_error")],
  ["gdo_last_error()/dl::error() after every call"],
  [("error buffer", "last saved message", T+"c.h errbuf; "+T+"cxx.hpp m_errmsg")])

p("C05", "Calls through the generated names reach the target unchanged",
  "A call through a generated alias or wrapper whose symbol is loaded calls the target function of that name in the current library exactly once, with every argument (variadic ones included) and the return value passed unchanged, and a hook defined for that function runs once before the target with the same parameters visible. "
  "Objects accessed through their aliases are the loaded library's own objects, for reading and for writing.",
  H, RTQ + "over parameter lists of any supported shape (scalars, pointers, arrays, function pointers, structs, variadic), parameter-name modes, wrapper linkage and hooks, with loads, releases and reloads of different libraries between calls.",
  "The tests call a handful of fixed functions of one library; the property ranges over every prototype shape and over reload histories.",
  [T+"c.h", T+"cxx.hpp", T+"minimal.h", T+"minimal_cxxeh.hpp", "src/parse.cpp", "src/parameter_names.cpp", "src/substitute.cpp"],
  [("wrapper bodies", T+"c.h wrap code; "+T+"cxx.hpp wrap code"), ("parameter names", "src/parameter_names.cpp")],
  ["call records written by the target library's functions"])

p("C06", "A wrapped call without its symbol ends with a message, never a wild call",
  "With wrapper functions but without auto-loading, calling a wrapper whose symbol is not loaded prints an error naming that symbol to the standard error stream (in C++: passes it to the message callback currently set, or prints it if none is), which says that the library is not loaded only if none is, and aborts the process. "
  "It never calls through a null or stale pointer, never runs the hook or the target, and never asks the loader for anything.",
  H, RTQ + "with the wrapper called before any load, after a failed or partial load, after a release and after a reload that lacks the symbol.",
  "No test calls a wrapper without its symbol, since the process aborts.",
  [T+"c.c", T+"c.h", T+"cxx.cpp", T+"cxx.hpp"],
  [("check before the call", T+"c.c _gdo_wrap_check_loaded; "+T+"cxx.cpp wrap::not_loaded")],
  ["captured stderr, message callback, simulated abort"])

p("C07", "Auto-loading loads what is needed or ends the process cleanly",
  "With auto-loading, the first call of a wrapper whose symbol is not loaded opens the configured default library (only if none is loaded, with the default flags) and loads all symbols, or with lazy loading only the requested one, and then performs the call; later calls do not load again. "
  "If the library or a needed symbol cannot be loaded, an error naming the symbol and the library and giving the reason the loader gave is reported, no target is called, the library is released and the process exits with status 1. "
  "After a successful use the library is released once at exit when exit handling is available.",
  H, RTQ + "with every open, lookup, close and exit-handler registration able to fail at any point, over every way of configuring the default library (macro, plain name, nq:, ext:, api:).",
  "The tests auto-load one library that is always there.",
  [T+"c.c", T+"c.h", T+"cxx.cpp", T+"cxx.hpp", T+"filename_macros.h", "src/generate.cpp"],
  [("load on demand in the wrapper check", T+"c.c _gdo_wrap_check_loaded; "+T+"cxx.cpp wrap::not_loaded"), ("default library macro", "src/generate.cpp format_libname; "+T+"filename_macros.h")],
  ["loader call history, captured stderr, exit status, handles at exit"])

p("C08", "The library path is the current library's, or an error",
  "The library-path query of the C and C++ APIs returns a path that the platform reports for the library that is loaded right now - the full path whenever the loader or the process map can supply one - and the same answer until the library is released. "
  "With no library loaded, or when the platform supplies no path by any means, it reports failure with an error message; it never returns a previous library's path, a truncated path or a path of another mapping.",
  H, RTQ + "including link maps with relative, empty or very long names, process maps of any layout (device numbers, permissions, neighbouring mappings, lines without a path), and failing map opens, link-map queries and address look-ups.",
  "The tests see one absolute path and no failing query.",
  [T+"c.c", T+"common.c", T+"cxx.cpp"],
  [("dlinfo, then process map for relative names, then dladdr", T+"c.c gdo_library_path; "+T+"common.c _gdo_fullpath_procmap; "+T+"cxx.cpp library_path"), ("cached path dropped on release", T+"c.c gdo_free_lib; "+T+"cxx.cpp free")],
  ["return value of the query compared with the simulated platform"],
  [("cached path", "path of the loaded library", T+"c.h libpath; "+T+"cxx.hpp m_libpath")])

p("C09", "Plugin lists: entries are independent and everything is given back",
  "Loading a list of plugins yields one entry per file name, in order, each with a copy of its name; an entry has a handle exactly when the loader granted that file, and each of its symbol pointers is null or exactly that file's symbol - failures in one entry never affect another. "
  "Releasing the list closes every granted handle exactly once and frees all memory, also when some or all loads failed; a null or empty list yields null, and running out of memory never crashes, leaks or yields an entry that misreports its state.",
  ["histories", "fault_sequences", "programs"], "every list of file names (repeated, empty and null names included), several lists alive at once, every pattern of refused opens, missing symbols, failing closes and failing allocations.",
  "The one plugin test loads good plugins only; leaks and double closes are invisible to it.",
  [T+"plugin.c", T+"plugin.h"],
  [("per-entry load loop and release loop", T+"plugin.c gdo_load_plugins, gdo_release_plugins")],
  ["entries of the returned list, handle table and allocation table of the simulator"])

p("C10", "Minimal loaders are all-or-nothing",
  "The minimal C and C++ loaders either load the library and every symbol (C: null is returned; C++: no exception), or report an error (C: an error text naming the missing symbol; C++: LibraryError or SymbolError naming the library or symbol) with the library closed and every symbol pointer null. "
  "This also holds when called again while a library is loaded: afterwards at most one library is open, it is the one the pointers belong to, and no handle was lost or closed twice (a repeated call that fails may have kept the earlier library whole or released it whole). Freeing closes an open library exactly once, resets everything and is harmless with nothing loaded.",
  H, "every symbol set; every sequence of load and free calls with any names; every pattern of refused opens, missing symbols and failing closes.",
  "The tests load once and succeed.",
  [T+"minimal.h", T+"minimal_cxxeh.hpp"],
  [("free on the first missing symbol", T+"minimal.h gdo_load_library_and_symbols; "+T+"minimal_cxxeh.hpp load_library_and_symbols")],
  ["return value or exception, symbol pointers, handle table of the simulator"])

p("C11", "Exit status 0 means the complete output was written",
  "If the generator exits with status 0, everything it was asked to write - to files, to standard output, in every output format, when printing symbols, using a custom template or dumping templates, and by the template packer of the build - has been accepted by the operating system completely, byte for byte what an undisturbed run writes.",
  ["fault_sequences", "inputs", "configurations"], "every input and option set, and every position and kind of output failure: full disk, I/O error, interrupted or short write, broken pipe, file size limit, failing close.",
  "The tests write small files to a healthy disk.",
  ["src/cio_ofstream.cpp", "src/cio_ofstream.hpp", "src/generate.cpp", "src/gendlopen.cpp", "src/data.cpp", "src/main.cpp"],
  [("output stream", "src/cio_ofstream.cpp"), ("save_data, substitute, print_symbols, dump", "src/generate.cpp; src/substitute.cpp; src/gendlopen.cpp; src/data.cpp")],
  ["simulated file system contents after exit, compared with the fault-free run; exit status"])

p("C12", "How the input is delivered never changes the result",
  "The generator's output depends on the bytes of its input and template files only: not on whether the input comes from a named file or standard input, nor on how reads are split up, delayed or interrupted. "
  "A failure to read - at open or at any later point - is never taken for the end of the data: the run then ends with an error.",
  ["fault_sequences", "inputs"], "every input (prototype list or Clang AST), template source and option set; every split of every read, every interruption and every read error position.",
  "The tests read small files whole, in one read.",
  ["src/open_file.cpp", "src/open_file.hpp", "src/lex.l", "src/tokenize.cpp", "src/utils.cpp", "src/data.cpp", "src/gendlopen.cpp"],
  [("stdio based reading in the scanner", "src/lex.l"), ("template line reader", "src/utils.cpp get_lines")],
  ["bytes written and exit status, compared with the undisturbed run"])

p("C13", "Existing files are never harmed",
  "Without the force option the generator never changes, truncates, replaces or removes anything that already exists at an output path (a symbolic link counts as existing, whether or not its target does): it reports an error instead. "
  "With the force option it replaces the named output itself and never writes through a symbolic link into its target; in either mode no file other than the outputs asked for is created, changed or removed, whatever fails on the way.",
  ["fault_sequences", "inputs", "configurations"], "every initial state of the output paths (absent, file, link to file, dangling link, directory, read-only), every option set including separate files and template dumps, and every failing or crashing system call.",
  "The tests always pass -force to fresh paths.",
  ["src/generate.cpp", "src/cio_ofstream.cpp", "src/data.cpp"],
  [("symlink-aware existence check and removal before opening", "src/generate.cpp open_ofstream"), ("template dump directory check", "src/data.cpp dump_templates")],
  ["simulated file system before and after"])

p("C14", "Every failure is reported and ends the run in an orderly way",
  "Whatever system call or allocation fails, the generator ends within bounded work with a normal exit status - never by a signal, an uncaught exception or a hang - and if it could not do what was asked, the status is non-zero and a message is printed on standard error.",
  ["fault_sequences", "inputs", "configurations"], "every option set and input; every single failing or repeatedly failing system call with every plausible error code, and every failing memory allocation.",
  "No test makes a system call fail.",
  ["src/main.cpp", "src/gendlopen.cpp", "src/open_file.cpp", "src/generate.cpp", "src/data.cpp", "src/cio_ofstream.cpp", "src/lex.l"],
  [("exceptions turned into messages", "src/main.cpp")],
  ["exit status, standard error, number of simulated system calls"])

p("C15", "Output is reproducible",
  "With the no-date option the generated output is a pure function of the input bytes and the options: it does not depend on the clock, time zone, locale or other environment, on the contents or addresses of memory, on file descriptors, on process, user or host identity, on random numbers, or on earlier runs and other files. "
  "Without it, the output differs in the date text of the generated-on note only, which shows the local time of the run.",
  ["inputs", "configurations", "schedules"], "every input and option set, every clock value (jumping between calls included), time zone, environment, memory content and layout, and process identity.",
  "The no-date test only compiles the output once; nothing is ever run under two clocks or environments.",
  ["src/generate.cpp", "src/substitute.cpp", "src/parse.cpp"],
  [("date printed only if requested", "src/generate.cpp note")],
  ["bytes written under different simulated environments"])

p("C16", "A killed run can simply be repeated",
  "If the generator is killed at any moment, running the same command again with the force option succeeds and leaves exactly the files an undisturbed run leaves; the killed run has not touched anything but its own output paths, and no other files are left behind by either run.",
  ["crash_points", "inputs", "configurations"], "a kill at every system call, including in the middle of a write, for single and separate outputs, over every initial state of the output paths.",
  "No test kills the generator.",
  ["src/generate.cpp", "src/cio_ofstream.cpp"],
  [("outputs removed and created anew with force", "src/generate.cpp open_ofstream")],
  ["simulated file system after crash and rerun"])

p("C17", "Dumped templates reproduce the built-in ones",
  "A template dump that reports success has written every built-in template completely (byte for byte the template of the source tree it was built from, whatever text that has, with Unix line ends), and generating with that directory as template path gives the same output as generating with the built-in templates, for every format and option set (apart from the file names in #line directives). "
  "A given template directory is used for every part of the output. Neither a dump nor the build step that embeds the templates ever reports success after any of its files could not be read or written.",
  ["inputs", "configurations", "fault_sequences"], "every format, prefix, input and option set; every failing, short or interrupted write, directory creation and read, in the dump, in the later run and in the build step that embeds the templates.",
  "No test dumps templates or uses an external template path.",
  ["src/data.cpp", "src/gen_templates_data.c", "src/utils.cpp", "src/gendlopen.cpp"],
  [("embedding", "src/gen_templates_data.c"), ("dump and load", "src/data.cpp; src/gendlopen.cpp load_template")],
  ["simulated file system after the dump; bytes written by both runs"])

p("C21", "Loaders generated with different prefixes are independent",
  "Any two APIs generated with different prefixes (neither of which, followed by an underscore, begins the other; any two output formats, inputs and options; header-only or with separate files) can be used in the same program, and two formats of the same language can be included in the same source file, in either order: everything compiles, links and keeps its meaning. "
  "Whatever one of them does - loading, failing to load, releasing, calling, asking for errors or paths - the other one's library, symbol pointers, state queries, error text, callback and later results are as if it were alone.",
  ["histories", "configurations", "fault_sequences"], "every pair of generated APIs with different prefixes, and every interleaving of calls of both with any refusals by the loader.",
  "One prefix is tested, and never two loaders in one program.",
  ["src/gendlopen.cpp", "src/substitute.cpp", "src/templates"],
  [("prefix substitution", "src/gendlopen.cpp; src/substitute.cpp"), ("guards and names in the templates", "src/templates/*")],
  ["compiling and linking of two generated APIs in one program; public API of both; simulated loader log"])

p("C22", "Generators running at the same time do not spoil each other's outputs",
  "Two runs of the generator on the same file system (a parallel build running one command twice, or two different commands), however their system calls interleave: a run whose outputs and directories for dumps are not the other's ends as it would alone, with the same files. "
  "Without the force option, a run that reports success leaves exactly its complete outputs, whatever the other run does, even if that one fails or is killed half-way; of two runs asked for the same output exactly one can succeed, and if nothing fails one does. "
  "With the force option in one or both, at least one run succeeds and every file left at an output path is the complete output of one of the runs, never a mixture or a part. Dumping the templates into one directory twice at the same time succeeds twice and leaves complete templates. "
  "Standard output is always the run's own, and no other file is created, changed or left behind.",
  ["schedules", "crash_points", "fault_sequences", "inputs", "configurations"], "every interleaving of the system calls of the two runs; every pair of commands (same or different inputs, options, outputs, with and without separate files and the force option), and every kill or failing call in one of two unforced runs.",
  "The tests of one build never run two generators on the same output on purpose, and when they do by chance nobody controls the interleaving.",
  ["src/generate.cpp", "src/cio_ofstream.cpp", "src/data.cpp"],
  [("outputs removed only with force, then created by exclusive opening, each written through its own descriptor", "src/generate.cpp open_ofstream"), ("template directory creation", "src/data.cpp dump_templates")],
  ["exit status, standard output and standard error of both runs", "simulated file system at the end"],
  [("output path", "absent, created and incomplete, complete; whose it is", "src/generate.cpp open_ofstream, close_ofstream")])

# ---- listed, but nothing in them for this family of technique -------------
p("C18", "Every declaration in the input is understood or rejected",
  "Every supported C prototype in the input, as text or as Clang AST, yields exactly one symbol with exactly the declared name, type and parameters; anything unsupported is rejected with an error instead of being silently dropped or altered.",
  ["inputs"], "every input text.", "The tests parse one list.",
  ["src/lex.l", "src/tokenize.cpp", "src/parse.cpp", "src/clang_ast.cpp", "src/parameter_names.cpp"],
  [("scanner and prototype parser", "src/lex.l; src/parse.cpp")], ["generated output"])
p("C19", "Symbol filters select exactly the named symbols",
  "-S, -P, -ast-all-symbols and -print-symbols select and print exactly the symbols that match, each once, in input order.",
  ["inputs", "configurations"], "every input and filter combination.", "One filter set is tested.",
  ["src/gendlopen.cpp", "src/parse.cpp", "src/clang_ast.cpp"], [("filtering", "src/tokenize.cpp")], ["generated output"])
p("C20", "#line directives point at the right template lines",
  "With -line every #line directive in the output names the file and line that the following output line comes from.",
  ["inputs", "configurations"], "every input, format and option set.", "The test only compiles such output.",
  ["src/generate.cpp", "src/substitute.cpp"], [("line counting", "src/generate.cpp")], ["generated output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
