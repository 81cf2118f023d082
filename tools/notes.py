NOTES = {
"P01": "Real encoder (test process side, including its reflection walk) and real decoder run back to back; the oracle is the captured Go value itself. Bit patterns and lengths are symbolic, so every varint length, sign and NaN payload is covered, where tests have samples.",
"P02": "Real decoder over symbolic bytes. Panics, hangs and allocations beyond a constant times the bytes received (engine-level allocation monitor) are violations, as are lists over the limit.",
"P03": "Real msgpack encoder and decoder of results; the oracle compares with the result that was written. Symbolic leaves make the solver choose whether values, maps or stacks coincide, which is what the deduplication depends on.",
"P04": "Two symbolic trees or paths; the oracle is structural equality written in the harness, the claim is an equivalence of key equality with it. Digests are injective functions in the model.",
"P05": "Two symbolic runs; the oracle is a direct model of pairing by path and occurrence, written with nested loops.",
"P06": "Real comparison over an in-memory store; the oracle recounts the differences from the inputs. The text of differences is stubbed (P14 decides it).",
"P07": "The oracle is a Go map per prefix. The concurrent harness checks that the outcomes are those of some order (linearizability) over all schedules within the preemption bound, and the race detector checks that data is accessed under its lock.",
"P08": "badger is replaced by an in-memory transactional store with faults (set/commit/limit errors) at any point; the oracle is a map. Size limits are scaled by choosing values around the real split limits.",
"P09": "Runs over an in-memory file system whose operations fail cleanly or half way at a symbolic step; the oracle is the snapshot before the instrumentation.",
"P10": "In-memory file system with faults, go commands and hooks modelled by stand-ins which may fail, change or remove files; the oracle is the snapshot before. The stand-in records on which sources and versions tests ran.",
"P11": "Real parsing, editing and printing of symbolic selections of functions; the oracle parses the produced sources independently and compares ids with the returned maps. Interleavings of the per-file edits are explored.",
"P12": "All schedules within the bounds of real goroutines over the real limiter and locks; deadlock is detected by the scheduler, exclusion by counters.",
"P13": "Messages symbolic; the oracle is a model of the records in the harness. Concurrent handlers are explored with preemptions; the race detector is on.",
"P14": "The oracle walks the message tree itself; digests are compared as injective functions.",
"P15": "The HTTP layer is replaced by in-memory requests with cut bodies and delivery outcomes; the oracle counts calls of the recording handlers.",
"P16": "The instrumented source is produced by the real code and *both* versions, before and after, are run by a small interpreter of Go statements (`lib_mini.go`, itself executed symbolically) in which results of called functions are symbolic; the oracle compares their events, results and panics, and the reported values with those in the original run. Both are type-checked with go/types.",
"P17": "Real x/mod parsing over an in-memory file system; files are rendered from a symbolic model, which is the oracle.",
"P18": "Module sources are rendered from a symbolic model of functions before and after; loading of packages is replaced by parsing them. The oracle compares the models.",
"P19": "In-memory file system with links, faults and slow operations; the oracle is the snapshot, and nothing may change after return.",
"P20": "All providers are recording stand-ins that fail at a symbolic step; the oracle is the documented order of steps. The clock is a counter.",
"P21": "Symbolic writes and writers; the oracle is the concatenation of what was written. Concurrent writes are explored with the race detector on.",
"P22": "Symbolic numbers over their whole range and choices of texts and paths; in-memory file system; the oracle restates the documented ranges.",
"P23": "The child process is replaced by a stand-in which posts messages to the monitor it finds in its environment; the oracle follows from what each run posted.",
"P24": "JSON encoding is replaced by recording the value given to it; chart rendering by recording its report. The oracle recomputes the figures from the inputs.",
"P25": "Call graphs are built from a symbolic choice of edges among functions parsed from sources; the oracle computes reachability separately. Building the graph (packages.Load, CHA) is outside.",
"P26": "The same value is captured twice under all iteration orders of its maps; triples of symbolic keys must be ordered transitively and consistently.",
"P27": "Two values are captured, decoded and turned into text by the real code; the claim is that equal records imply equal values. Texts of symbolic numbers are compared exactly (decimal and shortest float forms are injective). Known limit of the comparison by text: a byte list that is no valid UTF-8 (`[]byte{255}`, text `[255]`) and one that is the text spelling those numbers (`[]byte(\"[255]\")`) are shown alike; their records differ.",
"P28": "The real analysis of two rendered module versions feeds the real mutation run over an in-memory file system; the tool is a recording stand-in. The oracle knows which rendered lines differ. The scripts produced are run by a small shell interpreter (`lib_sh.go`), with symbolic outcomes of the tests and file operations. Which of the tool's two counts (\"passed\", \"failed\") means detected is left open: the code takes the second, the tool's own documentation is not here to decide it.",
"P29": "The charts library is replaced by a recorder of what it is asked to draw (bars, label texts made by the real formatters, table, texts). Figures are forked on small domains because quotients of symbolic floating-point numbers are out of the solver's reach; outcomes, tables and iteration orders are symbolic choices.",
"P30": "The harness lives in package lens/cmd (directive //v:pkg). The real ParseFlags and the real flag package are executed; os.Args, the environment and os.Exit are the harness's. The oracle is the option table of the README.",
}
