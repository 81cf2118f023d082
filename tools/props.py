prop("P01", "State captured in the test process arrives unchanged",
     "Every message a monitored test process sends (point identity, time, call stack, panic text and the typed tree of captured fields) is decoded by the analyser to exactly the values that were captured. Documented truncations (lists longer than the configured limit, over-long strings) are the only permitted difference, and truncation never changes the elements that are kept.",
     ["inputs"], "all scalar values of every supported kind, all list/nesting shapes and stacks within the bounds",
     "Tests encode a handful of sample values; a wrong bit pattern, an extreme value or an unusual nesting is not sampled.",
     ["lens/astclient.go", "lens/astsrv.go"], [("client encoder", "lens/astclient.go encode functions"), ("server decoder", "lens/astsrv.go lensReader")])
prop("P02", "Any bytes posted to the monitor server give a message or an error",
     "For every byte sequence received, decoding a monitor message returns either a message or an error. It never panics, never allocates memory out of proportion to the bytes actually received, and never accepts a list beyond the configured limit.",
     ["inputs"], "all byte sequences up to the bound after each message header",
     "Tests try a few truncated messages; they cannot cover all corrupt lengths and tags.",
     ["lens/astsrv.go"], [("bounded readers", "lens/astsrv.go lensReader")])
prop("P03", "A stored test result reads back as it was written",
     "Writing a test result and reading it back gives the same test identity, failure flag, change count, panics, call frames, stacks, times and field trees, for callers and extension points alike. This holds whatever values, maps or stacks the frames of the result share or nearly share.",
     ["inputs"], "all pairs (thorough: triples) of field-tree shapes with symbolic contents, stacks, times and flags",
     "Deduplication makes the encoding depend on coincidences between values; tests sample few coincidences.",
     ["lens/types.go"], [("deduplicating encoder", "lens/types.go marshalMsgpack"), ("decoder", "lens/types.go UnmarshalMsgpack")])
prop("P04", "Keys of field trees and call paths never confuse different things",
     "Two field trees have the same key exactly when they are the same tree, and two call paths have the same key exactly when they pass through the same functions of the same files in the same order. Line numbers never influence the key of a call path. The project part of a call path is exactly its frames in the project's own files, in their order.",
     ["inputs"], "all pairs of trees and call paths within the bounds, contents symbolic, hash assumed collision free",
     "A key collision needs two specially related inputs, which example tests do not contain.",
     ["lens/types.go", "lens/astexec.go", "lens/util.go"], [("tree key", "lens/types.go FieldValues.ID"), ("path key", "lens/astexec.go StackFramesKey, ProjectFrames")])
prop("P05", "Only what two identical runs agree on counts as stable",
     "From two runs of the same test, the stable result keeps exactly the fields both runs recorded with equal value at the same place of calls paired by call path and order of occurrence, and the panics both runs had, counted with multiplicity. A test that failed in either run counts as failed.",
     ["inputs", "histories"], "all pairs of runs within the bounds: calls, paths, times, trees, panic lists and flags",
     "Pairing depends on the relation of several times, paths and values at once; tests cover a few fixed combinations.",
     ["lens/astexec.go"], [("stable filter", "lens/astexec.go testResultStableFields, stableFieldValues")])
prop("P06", "The comparison before/after the update counts every difference exactly",
     "Comparing results before and after an update counts each field recorded before the update once, as same exactly when the matching call has the same value there, counts every panic added or removed once, and flags a regression exactly when a test passed before and fails after. Every test with results on both sides has one report, other tests have none, and a time change is reported exactly when it exceeds the configured factor: for each caller, the largest.",
     ["inputs", "histories"], "all results within the bounds on either side of the update",
     "The verdict depends on combinations of missing calls, repeated paths, panic multisets and large times; tests compare a few fixed examples.",
     ["lens/engine.go"], [("comparison", "lens/engine.go CompareTestResults")])
prop("P21", "Bounded output buffers keep the newest output and lose nothing silently",
     "The rolling output buffer never exceeds its limit, holds all output while it fits, and otherwise marks the cut and ends with the newest output. A tee delivers every byte in order to every healthy writer and reports failed or short writes; limiting text to lines keeps exactly the requested first or last lines; the shared buffer loses or tears no write under any interleaving.",
     ["inputs", "schedules", "fault_sequences"], "all write sequences, writer failures and interleavings within the bounds",
     "Boundary alignments of writes to limits and races between writers are not reached by example tests.",
     ["lens/util_io.go", "lens/util.go"], [("rolling buffer", "lens/util_io.go"), ("tee", "lens/util_io.go TeeWriter"), ("locked buffer", "lens/util_io.go")])
prop("P07", "In-memory and prefixed stores are independent maps",
     "After any sequence of saves, deletes and clears, a store holds exactly the keys saved and not deleted since, each with the bytes of its last save, and lists exactly those keys (or those with the given prefix). Stores under different prefixes of one backing store never see or remove each other's entries, later changes to a caller's buffer do not alter what is stored, and operations made concurrently have the effect of some order of them.",
     ["inputs", "histories", "schedules"], "all operation sequences and interleavings with symbolic prefixes, keys and values within the bounds",
     "Interference needs particular relations between prefixes and keys, which example tests do not contain.",
     ["lens/storage.go"], [("prefixed store", "lens/storage.go KeyPrefixStorage"), ("in-memory store", "lens/storage.go NewMemStorage")])
prop("P08", "The persistent store is a map, whatever the size of its values",
     "The persistent store behaves as the same map for values of any size, including empty ones, those at the limit where values are split, and those resembling its own markers. Keys created for parts are never listed; replacing, deleting or clearing removes all parts; a save or delete that fails leaves the previous value; and a load concurrent with a replacement returns the old or the new value.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all operation sequences, failing commits and interleavings of a load with a replacement within the bounds",
     "Split values only occur at sizes tests avoid; failures inside the database and concurrent replacement are not produced by tests.",
     ["lens/storage.go"], [("split values", "lens/storage.go BadgerStorage")])
prop("P09", "Instrumentation is undone completely",
     "However far an instrumentation got and wherever in it a file operation failed (cleanly or half way), restoring brings back every source file with its original contents, removes every injected and backup file, and leaves every other file alone, including one that already has the name of a backup and the target of a source file that is a link.",
     ["fault_sequences", "inputs"], "every position of one failing file operation in every edit sequence within the bounds",
     "Tests restore after successful edits; a failure at a particular file operation is not produced by them.",
     ["lens/asttweak.go", "lens/file.go"], [("restore", "lens/asttweak.go Restore, backupOrigFile, InjectASTClient")])
prop("P10", "The project's module files are restored on every outcome of an analysis",
     "Whether an update analysis succeeds or fails at any step (backup, update command, tidy, hooks, a file operation), each go.mod and go.sum of the project afterwards has the contents it had before, files created by the update are gone and nothing else is left or lost. The tests after the update run against the updated versions of all modules, and the update is made on the uninstrumented sources.",
     ["fault_sequences", "inputs"], "every position of one failing file operation, command or hook, for each project layout within the bounds",
     "Failures in the middle of an analysis are not produced by tests.",
     ["lens/astexec.go"], [("update analysis", "lens/astexec.go RunModuleUpdateAnalysis")])
prop("P11", "Exactly the requested functions get monitor points, known under their name",
     "Injecting monitor points gives every requested calling function its state and panic points and every changed module function its entry and panic points, and touches no other function. Each point id occurring in the instrumented sources is non-zero, unique and known under the function containing it. This holds for any selection and order of functions and any interleaving of the edits; when ids run out an error is returned.",
     ["inputs", "schedules"], "all selections of functions, start values and interleavings within the bounds",
     "Attribution depends on how functions group into files and on concurrent edits; tests inject one function at a time.",
     ["lens/astexec.go", "lens/asttweak.go"], [("injection", "lens/astexec.go injectMonitorPoints"), ("ids", "lens/asttweak.go nextPointId")])
prop("P12", "Concurrency limits and locks do what they promise",
     "No more activities run at once under a limiting wait group than its limit, none is blocked forever, and Join returns only after all have finished. Holders of a striped lock for the same key exclude each other, a key always gets the same lock, and holders of other keys always make progress.",
     ["schedules", "inputs"], "all interleavings and keys within the bounds",
     "Tests see few schedules.",
     ["lens/util.go"], [("limit", "lens/util.go limitingWaitGroup"), ("striped lock", "lens/util.go stripedMutex")])
prop("P13", "Every message of a test run is recorded once and under the right function",
     "The monitor of a test run records every state message exactly once under its function or extension point, in order, with its time in rounded milliseconds and its stack relative to the project; every panic once under its function; and every module function entered. Messages of unknown points are ignored. With results of an earlier run, a state keeps exactly the fields that were stable at the same occurrence of the same call path. The result is complete, and always becomes available, once the messages have been handled, also when they arrive at the same time.",
     ["inputs", "histories", "schedules"], "all message sequences and interleavings within the bounds",
     "Tests send a few messages of known points one after the other.",
     ["lens/astexec.go"], [("monitor", "lens/astexec.go testMonitor")])
prop("P14", "Captured values are recorded faithfully",
     "The recorded tree of a state message has every captured field under its name with the text of its value, leaving out only the internals of reflection values. Texts of strings are kept in full; other texts beyond the size limit are replaced by a digest that differs whenever the values differ. The explanation of a difference between two values is empty exactly when they are equal.",
     ["inputs"], "all trees and texts around the size limit within the bounds",
     "Tests record a few fixed fields.",
     ["lens/astexec.go", "lens/engine.go"], [("recording", "lens/astexec.go collectFields"), ("explanation", "lens/engine.go DiffValues")])
prop("P15", "What a test process sends reaches the handler in place once",
     "A message sent by the test process reaches the message handler in place at that moment exactly once, with what was sent. Requests that are no complete post of a message are refused and reach no handler. A message that cannot be delivered is reported once as an error and disturbs neither the test process nor later messages; a recovery without panic sends nothing.",
     ["inputs", "fault_sequences", "histories"], "all message sequences, delivery outcomes, cut messages and handler replacements within the bounds",
     "Tests post complete messages to a working server.",
     ["lens/astsrv.go", "lens/astclient.go"], [("server", "lens/astsrv.go handlePoint, handlePointState, handlePointPanic, SetPointHandler"), ("client", "lens/astclient.go sendLensPointMessage and others")])
prop("P16", "An instrumented function behaves as before and reports every return",
     "A function with state, panic, entry or end points still compiles, makes the same calls in the same order, and returns or panics with the same values. Each return, explicit or at the end of the body, is reported exactly once when its values are known, with the values of the parameters, named results and variables in scope and of the results; each panic leaving the function once with its value; each entry and end once. Closures inside are left alone.",
     ["inputs", "histories"], "all example functions built from the listed constructs, with every outcome of the calls they make within the bounds",
     "Which returns are reported, and whether behaviour is kept, depends on the nesting of constructs and on the path taken; tests compare the text of a few instrumented functions.",
     ["lens/asttweak.go"], [("return states", "lens/asttweak.go InjectFuncPointReturnStates, buildReturnInstrumentation, visibleDeclsBefore"), ("panics", "lens/asttweak.go InjectFuncPointPanic"), ("entry and end", "lens/asttweak.go InjectFuncPointEntry, InjectFuncPointFinish")])
prop("P17", "The modules, versions and changes of a project are found exactly",
     "Comparing an updated go.mod or go.work finds exactly the modules required in both in different versions, with their versions and whether the requirement is indirect. A project's modules are its root's and those listed in go.work, each found once, in order, with a package pattern covering it. A module's version is that of the first go.mod requiring it; the oldest or newest required version is found as asked. Go versions, including release candidates and betas, are ordered as released.",
     ["inputs"], "all module files, workspaces and versions within the bounds",
     "Results depend on combinations of missing modules, layouts and version relations; tests use a few fixed files.",
     ["lens/module.go", "lens/asttweak.go"], [("changes", "DiffModulesFromGoModFiles, DiffModulesFromGoWorkFiles"), ("project", "ProjectGoModFiles, ProjectPackagePatterns, FindModuleVersion, parseProjectDeps"), ("Go versions", "compareGoVersions, olderGoVersion, IsGoVersionBelowMinimum")])
prop("P18", "Exactly the functions an update changes are analysed",
     "For an updated module exactly the functions existing before and after with different definitions are analysed, each once, with its old definition, place and changed lines; comments do not count, and neither does the order of functions or files. With transitive changes, exactly the modules reached by changed requirements in versions the project does not use are covered too. Unmarked lines of a definition occur in the other version, in order.",
     ["inputs"], "all pairs of module versions and requirement graphs within the bounds",
     "Which functions and modules count depends on combinations of additions, removals and requirements; tests use a few fixed modules.",
     ["lens/module.go"], [("changed functions", "AnalyzeModuleChanges"), ("changed lines", "computeChangeLineBitmap")])
prop("P19", "An analysis works on a complete copy and leaves the originals alone",
     "A directory is copied completely, links included, or an error tells what failed; when the copy returns nothing goes on in the background. The temporary copy holds the project, GOPATH and GOMODCACHE wherever they lie or are linked; every path the analysis then uses is in it; the originals are never changed; it is removed afterwards, also when copying fails. Making a tree writable changes no other permission and follows no link. A file counts as within a directory exactly when its path leads there.",
     ["inputs", "fault_sequences", "schedules"], "all trees, layouts, failing file operations and interleavings within the bounds",
     "Tests copy small trees without failures, links at the root or unusual layouts.",
     ["lens/file.go", "lens/engine.go"], [("copy", "lens/file.go CopyDir, CopyFile, WriteChmod, fileWithinDir"), ("temporary environment", "lens/engine.go setupTempEnvironment")])
prop("P20", "A run takes its steps in order, reports once and cleans up",
     "An analysis run takes its steps in order up to the first that fails, whose error it returns; every step gets what the ones before found and the settings configured. Unless a step fails or no module changes, exactly one report is written with the modules, functions, callers, tests, counts and times found. Each step that was taken is cleaned up once, at the end; the store is closed once; temporary files are removed, whatever fails.",
     ["fault_sequences", "inputs", "histories"], "all outcomes of the steps and settings within the bounds",
     "Tests run the engine with a few providers and look at some of what is passed on.",
     ["lens/engine.go"], [("run", "lens/engine.go AnalysisEngine.Run, parseInitialModules")])
prop("P22", "A configuration is accepted exactly when it is valid",
     "Preparing a configuration accepts exactly settings within their documented ranges and choices, modules of the form name@version, existing update files, one kind of update file at a time, and report files that can be written, both checked. It yields exactly the modules asked for, in order, also when prepared again after a failure, is refused once prepared, and changes or removes no file.",
     ["inputs", "fault_sequences", "histories"], "all numbers, texts and file layouts within the bounds",
     "Boundaries of every range and combinations of flags are not sampled by tests.",
     ["lens/engine.go"], [("prepare", "lens/engine.go Config.Prepare, parseTargetModule, validateOutputPath")])
prop("P23", "Every test is run and recorded with a monitor of its own",
     "Each relevant test is run alone, uncached, in its package, with the given environment minus loader settings, reporting to a monitor no other test uses meanwhile: twice, or once when its stable fields are known. Its result, stored once under its identity, has the values equal in both runs and fails when a run fails; the output of the first failing run is told. All checks are counted, a failure to store is an error, and every monitor is free afterwards.",
     ["inputs", "schedules", "fault_sequences"], "all outcomes of test runs, environments and interleavings within the bounds",
     "Tests run a monitored test with fixed outcomes, one at a time.",
     ["lens/astexec.go", "lens/exec.go"], [("running tests", "lens/astexec.go runMonitoredTest, runMonitoredTestAnalysis"), ("commands", "lens/exec.go NewProjectExec, mergeSafeEnv, ExecGoTest")])
prop("P24", "The report tells what the analysis found, the same way every time",
     "The report lists every changed function reached, calling function and test once, in order, with their counts; for every test its failures, regression, figures and field changes; and every time change, in a fixed order. The root module is the only one updated, or updated directly. The JSON file and the charts are written exactly where asked for, tell the same figures under their documented names, and an error is returned exactly when one could not be written. Exactly the functions of modules below the minimum Go version are skipped and counted.",
     ["inputs", "fault_sequences"], "all results, map orders, paths and failing writes within the bounds",
     "Orders come from maps, and tests check single reports; swapped figures of equal value go unseen.",
     ["lens/report.go", "lens/engine.go", "lens/module.go"], [("data", "lens/report.go PrepareReportData, rootModule"), ("files", "lens/report.go writeReportJSON, writeReportCharts, lens/engine.go WriteReportFiles"), ("old modules", "FilterModulesByGoVersion")])

prop("P25", "Static analysis finds exactly the callers and tests that may reach a change",
     "Over the call graph, exactly the functions declared in project files that are built, not generated, and no main, init or anonymous function, and from which a changed module function can be reached without passing through main or init, are callers; each is told once, with its place, exactly the changes it may reach, and a change is reachable exactly when a caller may reach it. Exactly the functions go test runs as tests in the project from which a caller can be reached without passing through another test, main or init are its tests, each told once with exactly its callers. Functions have the same identity exactly when package, receiver and name agree; edges and return points told are exactly those of the graph and code. A file that cannot be read is an error.",
     ["inputs"], "all call graphs, cycles included, and function kinds within the bounds",
     "Call graphs are unbounded; tests use a few small projects without cycles or misleading names.",
     ["lens/static.go", "lens/shared.go"], [("callers", "lens/static.go CallerStaticAnalysis"), ("tests", "TestStaticAnalysis, isGoTestFunction"), ("graph", "extractCallGraphEdges, analyzeSSAFunctionReturnPoints"), ("identity", "MakeSSAFunctionIdent, MakeFunctionIdent")])
prop("P26", "Capturing a value ends and depends on the value alone",
     "Capturing the same value again gives the same record, whatever the iteration order of its maps and however values are shared in it. Capture ends for every value, also one that contains itself, and is followed to the depth limit. Of a map beyond the size limit exactly the first entries in a consistent total order of its keys are kept.",
     ["inputs", "schedules"], "all sharing and cycle patterns, map orders and key triples within the bounds",
     "Map orders are random and a difference shows only now and then; tests capture values without sharing.",
     ["lens/astclient.go"], [("capture", "lens/astclient.go streamField"), ("key order", "lensCompareReflectValue")])
prop("P27", "A difference between captured values is never hidden",
     "Two values of the same variable that differ within the limits of a capture have different records, and different texts when they are compared: lists with their own length and elements even when they share memory, nil apart from empty, lists of texts apart from texts with spaces, all entries of a map and all variables even when their names coincide, everything behind pointers. Values of different types have different records. (A byte list that is no valid text is shown by its numbers, just as the text spelling these.)",
     ["inputs"], "all pairs of values of the listed shapes with symbolic contents, sharing and lengths",
     "An update that changes one value into a look-alike would go unreported; tests capture single values and never compare two similar ones.",
     ["lens/astclient.go", "lens/astsrv.go", "lens/astexec.go"], [("capture", "lens/astclient.go streamField"), ("decoding", "lens/astsrv.go readValue"), ("text", "lens/astexec.go collectFields")])
prop("P28", "Mutation testing mutates only the changed code and leaves no trace",
     "Mutation testing hands the tool exactly the changed functions, with line scope only those with a changed line, and their files. With line scope every other line of code in them is excluded, comments and layout notwithstanding; otherwise the sources the tool works on are the original ones. A mutation is tested in place, uncached, with a time limit, by all tests of the project's modules or, when targeted, exactly the tests covering a change in its file, and counts as detected exactly when these fail; the original is back afterwards. The figures are those the tool tells; a step that fails is an error, and a tool that fails or tells nothing too. Whatever happens, sources have their contents afterwards and no script is left.",
     ["inputs", "fault_sequences"], "all function layouts, changes, test selections, tool outcomes and failing file operations within the bounds",
     "The repository has no test of mutation testing as a whole; a wrong line excluded or a wrong test selected only changes a figure.",
     ["lens/mutation.go", "lens/asttweak.go", "lens/module.go"], [("running the tool", "lens/mutation.go RunMutationTesting"), ("scripts", "buildExecSelectTestsScript, buildExecAllTestsScript"), ("excluded lines", "lens/asttweak.go InsertFuncLines, lens/module.go computeChangeLineBitmap")])
prop("P29", "The chart shows what the report tells",
     "The chart names the update and shows the figures of the report: the functions reachable of those changed, those tested, not traceable and untested of those reachable, the values that match and differ, the mutations detected and not, and the times before and after in one unit. Percentages are never undefined or above 100, belong to the figures, and are full only for values without a difference and mutations without survivors. The table lists exactly the tests that regressed or have differing values, up to ten, each once with its outcome and count, regressions first, then by count, generated tests last. The same results give the same chart, also when drawn from the JSON report.",
     ["inputs"], "all small figures, test outcomes and iteration orders within the bounds",
     "The repository has no test of the chart; a wrong share, a missing risky test or an order that changes from run to run is seen by no test.",
     ["lens/report.go"], [("drawing", "lens/report.go renderReportCharts, renderChartsToPainter"), ("from JSON", "lens/report.go RenderReportChartsFromJson")])
prop("P30", "The command line is followed exactly",
     "Every option given on the command line arrives in the configuration as it was given, in its own place, however it is spelled and in whatever order; the others keep their documented defaults. A command line is refused exactly when it names no project, no update (module, modules, go.mod or go.work), or both a go.mod and a go.work. Options added by a caller arrive under their names as text, given or default, without disturbing the standard ones. The module cache is the one the environment names, else the one of GOPATH, and without either the command line is refused. Asking for help prints the options and does nothing else.",
     ["inputs"], "all option values, combinations and spellings within the bounds",
     "The tests parse a handful of command lines; an option that lands in the wrong field or is lost in a certain combination goes unseen.",
     ["lens/cmd/flags.go"], [("parsing", "lens/cmd/flags.go ParseFlags"), ("environment", "lens/cmd/flags.go setupEnvironment")])
