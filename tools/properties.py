import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=[obs]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("P01","Same inputs always give byte-identical bindings",
 "Running the tool again on the same manifest, headers and flags with the time stamp disabled (-nostamp) produces the same exit status, the same set of files and the same bytes in each. This holds whatever the goroutine scheduling, map iteration order, hash seeds and speed of the host are, and whether the output directory was empty or already held the previous output.",
 ["schedules","inputs"],"for every manifest and header set, every interleaving of the generator, collector and progress goroutines and every random seed of the runtime",
 "A test executes one schedule and one map order per run; golden outputs that happen to be stable hide order dependences that show up once in many runs.",
 ["translator/translator.go","translator/rules.go","generator/generator.go","generator/gen_files.go","parser/parser.go","process.go"],
 [("rule compilation per scope","translator getRuleActionRxs / getPtrTipRxs / getTypeTipRxs / getMemTipRxs"),("helper submission and collection","generator submitHelper / MonitorAndWriteHelpers"),("learned declarations and ordering","translator Learn / collectDefines"),("predefined macro text","parser ParseWith")],
 obs="exit status and the tree under -out")
p("P02","The clock reaches the output only through the generation stamp",
 "With stamps enabled, the generated files of two runs on the same inputs differ at most in the one stamp line each of them starts with, which carries a well-formed RFC 1123 time lying within the run. With -nostamp nothing depends on the clock, its jumps or its zone.",
 ["inputs","schedules","fault_sequences"],"for every start time, time zone, pace and jump (forwards or backwards) of the wall clock while the tool runs",
 "Tests cannot choose the clock; stamps are excluded from comparisons or ignored, so a second time-dependent byte or a stamp taken outside the run goes unnoticed.",
 ["process.go","generator/generator.go","generator/gen_common.go"],
 [("stamp line","generator genLabel, WritePackageHeader, WriteDoc"),("no-stamp switch","main flag nostamp")],obs="first lines of each generated file")
p("P03","A successful run leaves a complete, self-contained package",
 "When the tool exits 0 without the -nocgo flag on C it supports, each generated package is complete: its Go files parse, belong to one package and type-check; every helper, type and C proxy they refer to is defined exactly once, imports match use, and every C callback proxy has its C declaration, its C definition and its exported Go entry point. No interleaving of the code that produces helpers with the code that collects them may lose, repeat or truncate one.",
 ["schedules","inputs","configurations"],"for every supported header and manifest, over every interleaving of helper producers with the collecting goroutine and of the two writers",
 "The helper pipeline is a goroutine fed over channels and closed after the last producer; the tests never run it, and a lost or duplicated helper needs a particular input together with a particular schedule.",
 ["generator/generator.go","generator/gen_bindings.go","generator/gen_callbacks.go","generator/gen_files.go","process.go"],
 [("helper queue and monitor","generator submitHelper, MonitorAndWriteHelpers, Close"),("callback proxies","generator gen_callbacks"),("file assembly and import fixing","process writeGoFile / flushBufferToFile")],obs="the package directory after exit 0")
p("P04","A failed write of the output is never reported as success",
 "If creating the package directory, or opening, writing or closing any output file fails (disk full, quota, I/O error, short write, permission, descriptor exhaustion), the run must not exit 0 while the package on disk differs from what a fault-free run produces. Whenever the tool exits 0, every output file is complete.",
 ["fault_sequences","inputs"],"for every operation on the output tree and every error it can return, singly and in combination, including a disk that fills after any number of bytes",
 "Tests never make a write fail, and each error path is one line at one call; a dropped error returns 0 with truncated bindings that only fail later, at someone else's compile.",
 ["process.go","main.go"],
 [("file creation and flush","process NewProcess, Flush, writeGoFile, flushBufferToFile"),("exit status","main")],obs="exit status and output tree after an injected fault")
p("P05","Unreadable input or failing host tools never yield silently wrong bindings",
 "If reading a manifest or header, or running the C compiler or pkg-config probe, fails or is cut short, the run either exits non-zero or produces exactly what the fault-free run produces. For the one documented fallback (an unusable external preprocessor or probe) a warning is printed and the result equals a run that does not use that tool.",
 ["fault_sequences","inputs"],"for every read, open or stat of an input and every host-tool invocation, over every error, short read, truncation, non-zero exit or kill",
 "Unit tests read intact fixtures; a header skipped because one stat or read failed gives a smaller but plausible package with exit status 0.",
 ["parser/parser.go","process.go","main.go"],
 [("manifest loading","process NewProcess"),("path resolution and include search","parser checkConfig / findFile"),("host compiler probe","parser hostCppConfig")],obs="exit status, standard error and output tree")
p("P06","Generation interrupted at any point is repaired by running again",
 "If the tool is killed at any point, leaving any prefix of its output (missing, empty, half-written or stale files), running it again with the same arguments succeeds and leaves exactly the files and bytes that an uninterrupted run into an empty directory leaves. Leftovers of the earlier attempt never change, break or leak into the new output.",
 ["crash_points","inputs","histories"],"for every crash point between and inside the operations on the output tree, every surviving prefix, torn or zero-filled write, and repeated crashes",
 "Each crash point leaves a different partial package, and import fixing reads the sibling files that happen to be in the directory; no test starts from a damaged output directory.",
 ["process.go"],[("flush order and import fixing","process Flush, writeGoFile, flushBufferToFile"),("directory set-up","process Flush")],obs="output tree after the repeated run")
p("P07","The tool changes nothing outside the package directory it generates",
 "A run creates, changes and deletes files only inside the package directory below -out, and there only the files it generates: hand-written files lying beside them, the headers, the manifests and everything else stay as they were. This also holds when the run fails or is cut short.",
 ["inputs","configurations","fault_sequences","crash_points"],"for every manifest, flag combination, package name, foreign file in the output directory, fault and crash point",
 "Tests look at what is produced, not at what else was touched; a stray write or removal on an error path needs that error at that moment.",
 ["process.go","main.go"],[("output location","process NewProcess / Flush"),("flags","main")],obs="file operations of the process and the trees before and after")
p("P08","Every run terminates, whatever the schedule, input or fault",
 "Every invocation, on headers the C front end accepts and on any manifest, ends with an exit status within bounded work: no deadlock between generator, collector and progress display, no endless wait on a channel or lock, no busy loop, and no crash by panic or fatal runtime error. A fault, a slow disk or host tool, or a blocked or failing terminal may delay or fail the run but never hang it, and losing terminal output never changes the files.",
 ["schedules","fault_sequences","inputs"],"for every interleaving of the goroutines of one run, every manifest, intact or damaged, all headers the C front end accepts, and every single or sticky fault",
 "A deadlock or lost wake-up needs one interleaving out of very many; tests do not run the pipeline at all and never with a failing disk or terminal.",
 ["main.go","process.go","generator/generator.go"],[("collector shutdown","generator Close / MonitorAndWriteHelpers with the wait group in process"),("progress spinner","main"),("error exits","main, process")],obs="process exit within a step and simulated-time bound")
p("P09","Several manifests in one invocation are processed independently, in order",
 "Processing several manifests in one invocation gives, for each, exactly the package it would give alone, in the order given. If one of them fails the run exits non-zero and the packages of the manifests before it are complete and unaffected.",
 ["inputs","histories","fault_sequences","schedules"],"for every list of manifests (with distinct or shared headers, macros, type and helper names), every position of a failing one and every schedule",
 "State kept between manifests (caches, learned declarations, helper registries, counters) shows only for particular combinations; no test runs two manifests.",
 ["main.go","process.go","translator/translator.go","generator/generator.go"],[("manifest loop","main"),("per-manifest state","process NewProcess, translator New, generator New")],obs="output trees of joint and separate runs")
p("P10","A learned translator answers concurrent queries like sequential ones",
 "Once a translator has learned its headers, any number of goroutines may ask it to translate types, names, tips and values at the same time: every answer equals the one a lone caller gets, in whatever order the questions come, and no query crashes, blocks or changes what later queries return.",
 ["schedules","histories"],"for every interleaving, at every lock, map write and channel operation, of any mix of queries from several goroutines, and every order of queries",
 "The shared caches behind the queries are locked precisely because callers are concurrent; a race or an order-dependent cache entry shows only in particular interleavings or query orders.",
 ["translator/translator.go","translator/helpers.go","translator/rules.go","translator/model_go_type.go"],[("name transform cache","translator TransformName"),("tip caches","translator PtrTipRx / TypeTipRx / MemTipRx"),("type specification","translator TranslateSpec / CGoSpec")],
 obs="answers of the translator's exported queries",hook="none in /repo: a harness package is overlaid at build time")
p("P11","Memory handed to C stays valid and unchanged for the whole call",
 "In generated bindings, every pointer, string, array and struct passed to a C function points at memory that stays allocated, unmoved and holding exactly the converted value from entry to return of that call, even when the garbage collector, finalizers and other goroutines run while C is executing or calls back into Go. With safe strings every C string is NUL-terminated there.",
 ["schedules","inputs","histories"],"for every binding shape, every moment of a garbage collection, finalizer run or goroutine switch before, during and after the call",
 "A collection must fall between conversion and use for a premature free to show; ordinary test runs never collect there and C reads freed memory without noticing.",
 ["generator/gen_bindings.go","generator/gen_common.go"],[("pack and unpack helpers","generator gen_bindings proxyArgFromGo / proxyValueFromGo, unpackPCharString"),("allocation map and keep-alive","generator cgoAllocMap, KeepAlive options")],obs="C side of the call, through a checking C library")
p("P12","Every C allocation made by a binding is released once and only once",
 "C memory that generated bindings allocate is freed exactly once: that of a struct's reference when its Free is called, temporaries of a call after they become unreachable and are finalized; never while still referenced, never twice (repeated or concurrent Free calls, on the same or on sharing values, are harmless), never memory the bindings did not allocate. After Free of all owners and once finalizers have run, nothing remains allocated.",
 ["schedules","histories"],"for every sequence and interleaving of create, pass, borrow, free, garbage collection and finalizer steps by several goroutines",
 "Leaks and double frees depend on when finalizers run relative to Free and to calls; a normal test process ends before any finalizer runs.",
 ["generator/gen_common.go","generator/gen_bindings.go","generator/gen_struct_helpers.go"],[("allocation map Add / Borrow / Free / IsEmpty","generator helpers cgoAllocMap"),("struct helpers","generator getPassRefSource / getFreeSource and their like"),("finalizers","packed slice and string helpers")],obs="malloc, calloc and free calls of the C side")
p("P13","Values cross the Go-C boundary unchanged in both directions",
 "Arguments, results, struct fields, strings, arrays, nested structs and slices passed through generated bindings arrive in C as the same values the Go caller supplied, and come back as the values C stored, including after a Deref, a re-pack after the call, or a reference reconstructed from C memory. Concurrent calls and collections never mix up or corrupt values.",
 ["inputs","schedules","histories"],"for every supported shape of parameter and field, all values, every interleaving with collections and other callers",
 "The conversions involve aliasing headers over foreign memory; whether a stale or moved buffer is read depends on collector and scheduler timing that a test does not control.",
 ["generator/gen_bindings.go","generator/gen_struct_helpers.go","generator/gen_declares.go","translator/translator.go"],[("proxy conversions","generator proxyValueToGo / proxyArgFromGo and the pack/unpack helpers"),("struct Ref / PassRef / PassValue / Deref","generator gen_struct")],obs="values logged on both sides of the boundary")
p("P14","A C callback invokes the Go function that was passed, with its arguments",
 "When C calls a function pointer obtained from a Go callback passed through a binding, exactly that Go function runs, once per call, with the arguments C gave, and its result is returned to C. This holds for nested and re-entrant calls, with collections in between, and for several callback types used together.",
 ["schedules","histories","inputs"],"for every callback type, sequence of registrations and calls, re-entrance and interleaving with collections and other goroutines",
 "The trampoline keeps the function in process-wide state; which function runs depends on the order of registrations and calls across goroutines.",
 ["generator/gen_callbacks.go","generator/gen_bindings.go"],[("callback registration and trampolines","generator getCallbackHelpers"),("C proxy","generated cgo_helpers.c")],obs="calls observed on the Go side against the C side's record")
p("P15","Failing C allocation stops the call cleanly",
 "If the C allocator returns no memory while a binding converts arguments, the binding panics with its memory allocation error (or, for strings and byte buffers that cgo itself allocates, the process stops with cgo's) before the C function is entered. Nothing is written through the null pointer, nothing already allocated is freed twice, and later calls, once memory is available, behave normally.",
 ["fault_sequences","histories","schedules"],"for every allocation a call makes, every subset of them failing, and every later history",
 "Allocation never fails in a test process; each of the generated allocation helpers has its own check.",
 ["generator/gen_bindings.go","generator/gen_common.go"],[("allocation helpers","generator getAllocMemoryHelper, unpack helpers")],obs="panics, C entries and allocator calls under injected failures")
p("P16","Rules and tips map every C name and type as documented",
 "The Go name and type chosen for a C declaration is the one the documented rule order, transforms, type map and tips prescribe, for every combination of rules.",
 ["inputs"],"for every set of rules and every declaration","Samples cover few combinations of scopes, actions and tips.",
 ["translator/translator.go","translator/rules.go","translator/type_mapping.go"],[("rule application","translator TransformName / IsAcceptableName / TranslateSpec")])
p("P17","Constants and enums keep the values the C compiler gives them",
 "Every generated Go constant has the value the C preprocessor and compiler give the macro or enumerator it stems from.",
 ["inputs"],"for every macro and enumerator expression","Samples cover few expression forms.",
 ["translator/translator.go","generator/gen_const.go"],[("value expansion","translator ExpandEnumValue / collectDefines / Value")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80, x['id']
