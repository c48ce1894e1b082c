#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, args="", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, args=args, observe=observe or [], state=state or []))

Q = "promq/prom/query.go"
prop("C01", "Ingested samples are kept, exactly once and in time order",
 "Whatever the order, batching and timestamps in which samples are ingested, a query over the full time range returns for every series ever ingested exactly the samples that were ingested for it: nothing lost, nothing duplicated, nothing attributed to another series, values bit-exact. Each series is returned once and its samples are in ascending time order, samples with equal timestamps in ingestion order.",
 ["histories", "inputs"], "every sequence of ingested batches over any number of series, with in-order, late, equal-time and arbitrary timestamps and any float value",
 "prom_test.go ingests a handful of fixed batches with mostly increasing timestamps; late samples into a non-empty series are hit by one case",
 [Q, "promq/prom/map.go"], [("RangeStorage.LoadData / rawSeries insertion", Q), ("series reference by label hash", "promq/prom/postings.go")],
 "runtime monitor: ingestion history vs sequential reference model",
 "every query result after every generated history is compared with a naive model of the history; exploration of random histories, not exhaustive")
prop("C02", "Selecting by matchers returns exactly the matching series",
 "For any stored data and any non-empty list of label matchers (equal, not-equal, regexp, negated regexp), selection returns exactly the series whose labels satisfy all of the matchers, where an absent label counts as the empty string, and returns them sorted by labels when sorting is asked for. It always terminates, and PromQL queries evaluated over the tool's storage give the same answer as over any other correct storage holding the same samples.",
 ["inputs", "histories"], "every set of stored series and every matcher list, including empty values, absent labels and matchers that match the empty string, and every PromQL query",
 "tests use a few equality and regexp matchers on labels all series have; matchers that select or exclude series lacking a label are not sampled",
 [Q, "promq/prom/postings.go"], [("Querier.Select postings intersection/subtraction", Q), ("memPostings", "promq/prom/postings.go")],
 "runtime monitor: differential oracle (linear scan; same PromQL engine over a reference storage)",
 "every generated selection compared with a linear scan, every generated PromQL query with the same engine over a reference storage; random exploration")
prop("C03", "Series iterators only move forward, to the right sample",
 "An iterator over a series yields its samples in order; seeking moves to the first sample at or after the target, never backwards, and stays where it is when already there or past it; once exhausted it stays exhausted. Iterators obtained separately, also over the same series, do not influence one another.",
 ["histories", "inputs"], "every series and every interleaving of next and seek calls on any number of iterators",
 "tests exercise iterators only through the query engine, which seeks forward with one iterator per series",
 [Q], [("rawSeriesIterator", Q)],
 "runtime monitor: step-by-step comparison with a forward-only iterator model",
 "every step of generated scripts is compared with the model; random exploration")
prop("C04", "Cleaning drops exactly the samples older than the cutoff",
 "After cleaning with a cutoff, queries return exactly the samples that are not older than the cutoff, for all series; a series left without samples is no longer returned. Samples ingested after a cleaning, also for a series that was fully cleaned, are visible like any others, and cleaning never disturbs other series or label lookups on them.",
 ["histories"], "every interleaving of ingestion and cleaning with any cutoffs",
 "tests clean once on small fixed data; a series cleaned away and ingested again is not exercised",
 [Q, "promq/prom/postings.go"], [("RangeStorage.Clean", Q)],
 "runtime monitor: ingestion/cleaning history vs sequential reference model",
 "the whole store is compared with the model after each step of a random history")
prop("C05", "Label names and values lookups report exactly the stored labels",
 "Asking the storage for label names, or for the values of a label, returns exactly the distinct names (or values) present on the stored series, sorted, without duplicates and without invented or missing entries, and never fails or blocks for a label that is unknown. When matchers are given only the series that satisfy them count.",
 ["inputs", "histories"], "every stored data set, label name and matcher list",
 "no test calls the label lookups with matchers or on labels only some series have",
 [Q, "promq/prom/postings.go"], [("Querier.LabelNames / LabelValues", Q)],
 "runtime monitor: results compared with a scan of the stored series",
 "random stores and lookups compared with a scan")
prop("C06", "Parsing a metrics exposition yields exactly its samples",
 "Every sample line of a well-formed text exposition becomes exactly one ingested sample with the line's labels (escapes decoded), value and timestamp (the scrape time when it has none), in order, carrying also the scrape target's labels. A target label replaces an exposed label of the same name; the target labels passed in are never modified; a malformed exposition is reported as an error and yields no samples.",
 ["inputs"], "every exposition text and target label set",
 "parse_test.go has a few fixed expositions without escapes, collisions, malformed lines or explicit timestamps",
 ["promq/prom/parse.go"], [("ParseTextData", "promq/prom/parse.go")],
 "runtime monitor: round trip of generated expositions through the parser",
 "expositions are rendered from random samples by an independent writer and the parse is compared; malformed ones by inserting bad lines")
IDX = "promq/prom/indexer.go"
prop("C07", "The completion index knows exactly the ingested metrics and labels",
 "At any time the index reports exactly the metric names, the label names per metric and the label values per metric and label that occur in the data ingested so far (series whose labels have the same 64-bit hash count as one). Answers it returned earlier never change afterwards and changing them does not affect the index; it may be updated and read concurrently without data races, and a read sees at least all updates completed before it began.",
 ["histories", "schedules"], "every sequence of updates and every interleaving of concurrent updates and reads",
 "indexer_test.go updates and reads from one goroutine and never looks at an answer again after a later update",
 [IDX], [("index lock, copying answers", IDX)],
 "Go race detector + online monitor of concurrent index reads against completed/started updates",
 "races are found only on executed schedules; answers are bounded by completed and started updates", "race")
PER = "promq/prom/query.go"
prop("C08", "A scrape cycle ingests, indexes and evaluates exactly once",
 "A successful scrape ingests exactly the data the source returned, then evaluates the current query over everything scraped so far and hands the result to the callback exactly once; the completion index covers the scraped data. A failing scrape reports its error, does not call the callback and leaves the data unchanged; an invalid query is rejected and leaves the current query in force; a callback's error is returned; a manual evaluation calls the given callback exactly once with the current query's result. Range queries are evaluated from one window before now until now at the configured step.",
 ["histories", "fault_sequences", "configurations"], "every sequence of scrapes (succeeding or failing in any way), query changes and manual evaluations, every window and step",
 "prom_test.go drives one or two successful cycles; failures, rejected queries and manual evaluations in between are not sampled",
 [Q, "promq/prom/multi.go"], [("PeriodicData.Scrape / SetQuery / ManuallyExecuteQuery", Q)],
 "runtime monitor: scripted fault sequences vs sequential reference model",
 "each step's callback, error and result is compared with a model driven by the same script")
prop("C09", "Scrapes, query changes and manual queries are atomic when concurrent",
 "When scrapes, query changes and manual evaluations run concurrently there are no data races and each evaluation sees some current query and every scraped batch either whole or not at all. The evaluations are consistent with one order of the operations that respects real time: a completed query change is used by every later evaluation and a completed scrape is visible to every later evaluation.",
 ["schedules", "histories"], "every interleaving of concurrent scrapes, query changes and manual evaluations",
 "no test runs two of these operations at the same time or uses the race detector",
 [Q], [("PeriodicData locks", Q)],
 "Go race detector + linearizability checking (porcupine) of recorded concurrent histories",
 "recorded histories of executed schedules are checked; schedules are sampled with injected delays", "race")
COM = ["promq/autocomplete/earley/completer.go", "promq/autocomplete/earley/luthor.go", "cmd/metrics/autocompleter.go"]
prop("C10", "Completion never crashes or hangs and ignores text after the cursor",
 "Whatever text is in the prompt (valid, partial or garbage, any Unicode or bytes) and wherever the cursor is, asking for completions returns: no panic, no endless loop, no unbounded memory. The answer depends only on the text before the cursor, and the prompt makes one offer for each suggestion that the completion engine makes for that text.",
 ["inputs", "histories"], "every text and every cursor position, and every typing session",
 "the tests complete some sixty fixed, well-formed ASCII prefixes with the cursor at the end",
 COM, [("lexing and prefix extraction", "promq/autocomplete/earley/luthor.go"), ("cursor handling", "cmd/metrics/autocompleter.go")],
 "runtime monitor: crash/hang/memory watchdog and metamorphic suffix oracle under text fuzzing",
 "fuzzed texts with every cursor offset; a hang is 60 s of CPU in one call")
prop("C11", "Completions depend only on the text and the index, not on history",
 "Completing a given text over a given index always gives the same answer, whatever was completed before: in an editing session of any length (typing, erasing, pasting, malformed text in between) each answer equals that of a fresh process. Several completers in one process do not influence one another, and metrics that appear in the index later are offered at once.",
 ["histories"], "every sequence of completed texts",
 "each test completes one text with a fresh or nearly fresh completer; the incremental reparse is checked on a few hand-picked edits",
 COM + ["promq/autocomplete/earley/earley.go"], [("incremental reparse of changed tokens", "promq/autocomplete/earley/earley.go")],
 "runtime monitor: repeated-answer consistency across sessions and against a fresh process",
 "answers in random editing sessions compared with each other and, sampled, with a fresh process")
prop("C12", "Completion offers the next token of every supported query",
 "While a valid query in the supported forms (selectors with matchers, ranges and offsets; functions; aggregations with grouping; arithmetic, comparison and set operators with matching modifiers; subqueries) is being typed, the next word or symbol of the query is among the suggestions at every position inside or between its tokens: metric names, label names, quoted label values, functions, aggregations, operators and keywords.",
 ["inputs"], "every valid query in the supported forms, every cut, every index that knows its metrics and labels",
 "completer_test.go lists expected suggestions for a few dozen fixed prefixes",
 COM + ["promq/autocomplete/earley/promql.go"], [("the PromQL completion grammar", "promq/autocomplete/earley/promql.go")],
 "runtime monitor: generated valid queries cut at every token, oracle is the query itself",
 "queries confirmed valid by the pinned Prometheus parser; aggregations with parameters, selectors without a metric name, parenthesised non-binary expressions and metrics named like functions are not supported forms")
prop("C13", "Every suggestion keeps the query valid",
 "Accepting any suggestion where the text so far can still become a valid query leaves text that can still become a valid PromQL query: the word or symbol offered is possible there, and it extends what was already typed of the word. Functions and aggregations offered exist in PromQL.",
 ["inputs"], "every text that is a prefix of some valid query, every suggestion made for it",
 "tests compare a few dozen suggestion lists with expected lists written by hand",
 COM + ["promq/autocomplete/earley/promql.go"], [("the PromQL completion grammar", "promq/autocomplete/earley/promql.go")],
 "runtime monitor: the PromQL parser as acceptance oracle on generated prefixes",
 "the pinned Prometheus parser decides viability; one known finding (inside the group_left/group_right parenthesis)")
prop("C14", "The completion parser suggests exactly the possible next tokens",
 "For any grammar (recursive, mutually recursive, ambiguous, with several start symbols) and any token sequence, the suggested token types are exactly those that can follow the sequence in some sentence of the grammar. This holds after any sequence of edits to the tokens, not only when parsing from scratch.",
 ["inputs", "programs", "histories"], "every grammar without empty rules and every editing session of token sequences",
 "earley_test.go uses two or three fixed grammars and few token sequences",
 ["promq/autocomplete/earley/earley.go", "promq/autocomplete/earley/chart.go", "promq/autocomplete/earley/stateset.go", "promq/autocomplete/earley/grammar.go"], [("Earley predictor, scanner, completer", "promq/autocomplete/earley/earley.go")],
 "runtime monitor: differential against an independent saturation parser on random grammars",
 "random grammars whose nonterminals are all productive; terminals with subtypes included")

exec(open(os.path.join(here, "gen", "props2.py")).read()) if os.path.exists(os.path.join(here, "gen", "props2.py")) else None

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the exported API or the real binary. Set VERIF_TIER=thorough for the deep runs; both commands are the same, the tier comes from the environment."}
for p in P:
    cmd = ("bash check.sh %s %s" % (p["id"], p["args"])).strip()
    m["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd,
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
