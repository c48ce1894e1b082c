PLOT = "promq/term/plot/plot.go"
AXES = "promq/term/plot/axes.go"
GRAPH = "promq/term/graph.go"
prop("C15", "Any query result can be drawn, and only inside the graph's box",
 "Drawing a graph of any series (none, empty, single points, gaps, equal values or times, NaN, infinities, numbers of any magnitude) into a box of any size and position always finishes without a crash, without unbounded time or memory, and changes no screen cell outside the box. This also holds when the value range of an earlier graph is carried over.",
 ["inputs", "configurations"], "every set of series, box, tick spacing, screen size and carried-over range",
 "graph_test.go draws a handful of small, smooth, finite series into two or three box sizes",
 [GRAPH, PLOT, AXES], [("GraphView.FlushTo", GRAPH), ("scaling and Bresenham lines", PLOT), ("tick generation", AXES)],
 "runtime monitor: crash/hang/memory watchdog and a guarded screen recording every cell write",
 "random and hostile data; a hang is 60 s of CPU in one case")
prop("C16", "Every sample is plotted at its place, and nothing else is drawn",
 "Every finite sample lights the dot at its proportional time and value position (samples of a series that share a dot column: at their average), each consecutive pair of a series' samples is joined by a line, and no other dot is lit. The axes' ranges cover all the data and the carried-over range, a cell has the colour of a series drawn in it, and each group of dots becomes the braille character with exactly these dots. A rendered dot of a sample is told from those of lines and keeps every series that has a sample there.",
 ["inputs", "configurations"], "every set of series, screen size and value scale",
 "graph_test.go compares a few small drawings with fixed pictures",
 [PLOT, GRAPH], [("DataToPlatonicGraph / ToScreen / Render", PLOT), ("braille cell mapping", PLOT)],
 "runtime monitor: braille output decoded back to dots, compared with positions computed exactly (rationals)",
 "random data sets; the dot-to-character mapping of small screens is enumerated; two known findings about falling lines")
prop("C17", "Axis ticks mark the right place with the right label",
 "Every tick lies inside the data's range, is drawn at the position where data of that value or time is drawn, and carries the label of its own value next to the axis and inside the margin. Ticks are in order, no two share a place, the first and last time and the smallest and largest value have one, the margins are just large enough for the labels, and outside the plot only axis lines, ticks, the corner and labels are drawn.",
 ["inputs", "configurations"], "every non-empty set of series, box size, tick spacing and labelling",
 "graph_test.go compares the axes of two or three fixed graphs",
 [AXES, GRAPH], [("EvenlySpacedTicks", AXES), ("DrawAxes", AXES), ("margins", GRAPH)],
 "runtime monitor: recorded ticks and drawn cells checked against independently computed positions and labels",
 "random data sets and sizes; two known findings about value ticks sharing a row")
prop("C18", "Query results reach the plot unchanged",
 "Converting a range-query result for plotting keeps every series and every sample (time and value bit for bit, in order), titles each series with its label values, and gives each a colour number that is never the default colour and is the same whenever the same series is converted again. Errors and results of another type are reported as errors, and a converted result is independent of the query's memory.",
 ["inputs", "histories"], "every query result: any label sets, sample counts and float values, any result type, errors",
 "no test covers the conversion",
 ["cmd/metrics/data.go"], [("PromResultToPromSeriesSet", "cmd/metrics/data.go")],
 "runtime monitor: converted results compared with the generated originals, also after scrambling the originals",
 "random results")
PROMPT = "promq/term/prompt.go"
WRAP = "promq/term/wrapper.go"
WITH = "promq/term/withprompt.go"
KEYS = "promq/term/keytobytes.go"
SPLIT = "promq/term/split.go"
TEXT = "promq/term/textbox.go"
RUN = "promq/term/runner.go"
prop("C19", "A split view divides its box between its parts without overlap",
 "A split view of any size gives its docked part the wanted number of rows or columns, limited to the set percentage of the box (rounded down) and so that at least one is left for the flexible part (never less than none), on the docked edge, and its flexible part the whole rest: the parts lie inside the box, don't overlap and leave nothing out, also when split views are nested and after any number of size changes. Flushing the view flushes each part that can be flushed exactly once.",
 ["inputs", "configurations"], "every box, dock position, dock size, percentage and nesting",
 "split_test.go uses one or two boxes per dock position, mostly 50 %",
 [SPLIT], [("SplitView.SetBox", SPLIT), ("SplitView.FlushTo", SPLIT)],
 "runtime monitor: boxes handed to recording views compared with a partition computed independently",
 "random trees of split views and sizes")
prop("C20", "A text box shows the text wrapped and clipped to its box",
 "A text box shows, from its top left, the written text line by line: every character in its place and with its style, wide characters taking two columns, lines longer than the box continued on the next row, a newline starting the next row. Text with more rows than the box scrolls: the last rows are shown. Control characters and characters wider than the box are left out. The pieces the text was written in make no difference, no cell outside the box is changed, and it always finishes, also for boxes narrower than a character.",
 ["inputs", "histories"], "every text (any Unicode), sequence of writes and box",
 "textbox_test.go writes a few short ASCII texts",
 [TEXT], [("TextBox.FlushTo / WriteString", TEXT)],
 "runtime monitor: recorded cells compared with a reference layout; hang watchdog",
 "random texts, pieces and boxes; combining characters are only checked not to be misplaced or cause crashes")
prop("C21", "The prompt area shows what a terminal would show",
 "Whatever go-prompt draws (editing, completion menu, scrolling, erasing, cursor moves, any input text), the prompt's area of the screen, at any place and size, shows what a terminal of that size would show given the same output: same characters in the same cells, the cursor in the same place and always inside the area. Nothing is ever drawn outside the area.",
 ["histories", "inputs"], "every sequence of terminal operations, every editing session, area and size change",
 "prompt_test.go checks each operation once, away from the edges of the area",
 [PROMPT, WRAP], [("cell grid and cursor operations", PROMPT), ("cursor placement", WRAP)],
 "runtime monitor: prompt's screen compared with a reference VT100 terminal fed the same operations",
 "random operation sequences, and whole go-prompt editing sessions at random sizes; situations in which real terminals differ (pending wrap) are not judged")
prop("C22", "Keys pressed reach the prompt as the same keys, in order",
 "Every key event becomes the bytes that go-prompt reads back as that same key (or that character), for all special keys, control keys and any Unicode character that go-prompt knows; a sequence of keys arrives complete and in order, each special key in a read of its own (a read may hold several characters), also when keys are sent while the prompt is busy.",
 ["inputs", "schedules"], "every key event and every sequence of key events, with any timing between sender and reader",
 "the tests type a few ASCII letters and enter",
 [KEYS, PROMPT], [("key event to bytes", KEYS), ("key queue to the prompt", PROMPT)],
 "Go race detector + monitor: bytes read back by go-prompt's own key decoder, compared with the keys sent",
 "all keys tcell knows are enumerated, sequences and timing are random; keys go-prompt has no name for are not judged", "race")
prop("C23", "The screen ends up showing the last view requested",
 "Whenever views and repaints are requested (from any goroutine, before the screen exists, in bursts, while a key is being handled) and the terminal is resized, once all is quiet the screen shows the view requested last at the current size and nothing of earlier ones. Requests never block, every key is handled once and in order, views and key handler are used by one goroutine at a time, and Run ends the screen once and returns when its context ends, or returns the error if there's no screen.",
 ["schedules", "histories"], "every interleaving of view, repaint and cursor requests, keys, resizes, start and end",
 "runner_test.go makes one request at a time on an initialized screen and waits for it",
 [RUN], [("Run event loop", RUN), ("RequestUpdate / RequestRepaint", RUN)],
 "Go race detector + monitor: whole runner lives on a recording screen with short event queues",
 "random lives with random timing; a wait that takes 60 s counts as never", "race")
prop("C24", "A prompt session runs its commands and ends cleanly",
 "A prompt runs the handler once for each line entered, in order and with exactly the entered text, shows what the handler returns, and ends when it's told to stop or its context ends: Run then returns, nothing remains blocked, and keys sent or redraws asked for before, during and after its life neither block, crash nor race. The cursor is shown where the prompt's cursor is.",
 ["schedules", "histories"], "every session of keys, lines, handler replies, size changes and stops, with any timing",
 "prompt_test.go runs one session at a time, waiting after each key",
 [PROMPT, WITH, WRAP], [("PromptView.Run", PROMPT), ("key dispatch and locking", PROMPT), ("cursor show/hide", WITH)],
 "Go race detector + monitor: whole prompt sessions with concurrent keys, redraws, resizes and stops",
 "random sessions; go-prompt itself may lose type-ahead right after Enter, so lines are entered one after another", "race")
METR = "cmd/metrics/metrics.go"
OUT = "promq/prom/output.go"
CMD = "cmd/promq.go"
prop("C25", "A query reads all targets, and any target's failure is an error",
 "The query command asks every target given (or the cluster's /metrics if none is) and reports exactly the union of the current series they expose, with the values of the last scrape, each series under the address of its own target whatever instance label it carries. If any target can't be reached, answers with another status than 200, cuts its answer short or sends a malformed exposition, at the first or the second scrape, the command fails and prints nothing.",
 ["inputs", "configurations", "fault_sequences"], "every list of targets, their expositions at each scrape, and every fault of one of them",
 "no test makes an HTTP request or runs the command",
 [METR], [("httpSource.ScrapePrometheusEndpoint", METR), ("DataSources", METR), ("MetricsCommand.Run", METR)],
 "runtime monitor: the command's JSON compared with the union of what instrumented loopback targets served; faults injected into them",
 "random targets and faults; one faulty target at a time")
prop("C26", "Every output format shows the whole result and nothing else",
 "For any query result (scalar, string, vector, matrix; any label values, floats and times) the JSON (plain, or in colour when asked for and colours are on) and YAML outputs read back as exactly that result: each series, label, time and value, in order; the Prometheus format has exactly one entry for each series and sample. The result is left as it was; a result that is an error, and unknown formats, give an error and no output.",
 ["inputs"], "every query result and output format",
 "prom_test.go formats a handful of results without special characters or values",
 [OUT], [("ToPrettyFormat", OUT), ("prometheus format", OUT)],
 "runtime monitor: outputs parsed back and compared with the result, the Prometheus format composed independently",
 "random results; the sign of a zero is not judged in YAML")
prop("C27", "Listing shows each exposed metric once, with its label names",
 "The list command prints, by ascending name, exactly one line for each metric and set of label names that any target exposes, naming the metric and its labels without the target's own; values and the number of series and targets make no difference. If a target fails the command fails and prints nothing.",
 ["inputs", "configurations", "fault_sequences"], "every list of targets and expositions",
 "no test runs the list command",
 [METR], [("outputMetricNames", METR)],
 "runtime monitor: printed lines compared with what instrumented loopback targets served",
 "random targets and faults")
prop("C28", "Set operations and suggestion filters compute what they are named for",
 "The set types' operations (insert, delete, has, union, intersection, difference, superset, equality, pop, sorted listing, for every element type) give the mathematical result for any sets and leave their operands as they were. The suggestion filters return exactly the items matching the text typed (prefix, substring or fuzzy, with or without regard to case), in order and unchanged, and quoting adds quotes exactly where they are missing.",
 ["inputs", "histories"], "every set of any element type, list of items and typed text",
 "no test covers the set types; filter tests use a few ASCII words",
 ["notstdlib/sets/string.go", "notstdlib/sets/byte.go", "notstdlib/sets/int.go", "notstdlib/sets/int32.go", "notstdlib/sets/int64.go", "notstdlib/sets/uint64.go", "promq/autocomplete/filter.go"],
 [("set operations", "notstdlib/sets/string.go"), ("filters", "promq/autocomplete/filter.go")],
 "runtime monitor: every operation compared with a model on random operands, operands compared before and after",
 "random sets and texts; all set types by reflection")
prop("C29", "Metric, label and value suggestions are exactly what was observed",
 "Where a metric name, a label name of a metric (in a selector or a grouping) or a label value is due, the suggestions taken from observed data are exactly the observed ones that begin with what is typed: all metrics, the labels of the metric in question, the values of that label for that metric; nothing of other metrics, nothing twice, and nothing stale or missing as more data is observed.",
 ["inputs", "histories"], "every index content, position in a query and typed prefix",
 "completer_test.go uses one fixed index and a few prefixes",
 ["promq/autocomplete/earley/completer.go", "promq/prom/indexer.go"], [("index-backed suggestions", "promq/autocomplete/earley/completer.go"), ("index", "promq/prom/indexer.go")],
 "runtime monitor: suggestions compared with the set computed from the generated index",
 "random indexes and positions")
prop("C30", "A command line run prints exactly the query's result or fails",
 "Run without a terminal, the program prints on standard output exactly the result that PromQL defines for the query over what the targets exposed, in the chosen format, and exits with status 0; or, if anything is wrong (flags, configuration, credentials, certificate, target, query, evaluation, format), prints nothing there, an error on standard error, and exits with another status. The current kubeconfig context's server, credentials and certificates are used. It always ends, doesn't crash and changes no file.",
 ["inputs", "configurations", "fault_sequences"], "every command line, kubeconfig, set of targets and query",
 "no test runs the program",
 [CMD, METR, "promq.go", "cmd/cli/flags.go"], [("command and flags", CMD), ("MetricsCommand.Run", METR), ("exit status", "promq.go")],
 "runtime monitor: streams, status and files of the real program, results compared with PromQL's engine over a reference storage",
 "random command lines and targets; queries whose result depends on the order of series or on the exact time of the scrape are left out", "promq")
prop("C31", "An interactive session plots the current query until it's ended",
 "In a terminal, the program plots the query in force: the legend names exactly the query's series, each in the colour of its dots, no other dots are there, and the axes state the values and times plotted (times in a notation fit for the window: day, hour, minute, second or milliseconds); the value axis doesn't shrink while a query is in force; a new query replaces it, a malformed query or unknown command is answered with a message and changes nothing, completions are offered from what was scraped. It asks the targets again and again, survives their failures (holding no more connections or files the longer they last) and terminal resizes, and :quit ends it with status 0 and the terminal restored. No data races.",
 ["schedules", "histories", "fault_sequences", "configurations"], "every interactive session, with any timing of keys, scrapes, faults and resizes",
 "no test runs the interactive mode",
 [METR, RUN, WITH], [("runInteractiveChart", METR), ("Run event loop", RUN), ("PromptView.Run", WITH)],
 "Go race detector on the real program + monitor: its terminal output interpreted by a terminal emulator on a pseudo terminal",
 "random sessions in wide terminals; a wait of 60 s counts as never", "race promq")
prop("C32", "Debug logging changes nothing but the log files",
 "Setting PQ_DEBUG_LOG_DIRECTORY, whether to a directory that can be written, one with earlier logs or one that doesn't exist, changes no suggestion, output or exit status; only the two log files in that directory are written, what they held before is kept, and if they can't be written nothing is logged.",
 ["configurations", "inputs"], "every log directory, completion and command line",
 "no test sets the log directory",
 ["debug/log.go", "debug/debug.go", "debug/error/error.go"], [("NewDebugLogger", "debug/log.go"), ("Debugf / Debugln", "debug/debug.go")],
 "runtime monitor: outputs of the same runs with and without logging compared, files compared before and after",
 "random completions and command lines", "promq")
prop("C33", "Accepting a completion only adds to the query what completes it",
 "Selecting any completion offered in the prompt and accepting it, whatever text is typed and wherever the cursor is, keeps all the text before the cursor and all the text after it and only adds text between them: what is missing of the word, quoted label value or duration that completes what was typed. In a valid query in the supported forms, one of the completions adds exactly the rest of the token at the cursor, whatever characters it consists of.",
 ["inputs", "configurations"], "every text, cursor position and completion offered",
 "no test covers the prompt's completer or what accepting a completion does",
 ["cmd/metrics/autocompleter.go", METR, "promq/autocomplete/earley/completer.go"], [("Completer.Complete and the word separators", "cmd/metrics/autocompleter.go"), ("completion prefix", "promq/autocomplete/earley/completer.go")],
 "runtime monitor: acceptances of generated texts, in go-prompt's buffer and by keys in a real go-prompt, against text-preservation and next-token oracles",
 "random texts and cursor positions; queries as for C12")
prop("C34", "The label index lists exactly the series it holds",
 "Whatever series ids are added to the label index, with any labels and in any order, and deleted again, it lists for every label pair exactly the ids added with it and not deleted since, in ascending order; all its ids, its label names, the values of a name and its sorted label pairs are exactly those still held. An index made unordered does so once it was put in order. It may be read while ids are added in ascending order and deleted: without data race, and every list read is in order, lacks no id that was there throughout, and holds none that never was.",
 ["histories", "schedules"], "every sequence of additions and deletions, and every interleaving of one writer with readers",
 "no test covers the label index on its own; storage tests add a few series in order",
 ["promq/prom/postings.go"], [("Add / Delete / EnsureOrder", "promq/prom/postings.go"), ("Get / All / SortedKeys / IterNames / IterValues", "promq/prom/postings.go")],
 "Go race detector + monitor: everything listed compared with a map after each step, and reads checked against what was there before and after them",
 "random sequences of up to 190 ids; concurrent runs with one writer and three readers", "race")
