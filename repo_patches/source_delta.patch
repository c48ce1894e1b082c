From 252a6dc6a60921ed9d005f34b899af9ae5f9d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 01/41] fix: keep out-of-order samples sorted by timestamp on
 insertion

The search predicate was inverted: sort.Search needs a predicate that turns
true at the insertion point, so a late sample could land anywhere and range
queries returned samples out of order or missed some.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..6550582 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From 132e603879df3c16739b936e00791cc8e8787554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 02/41] fix: don't deadlock on matchers that also match a
 missing label

IterValues holds the postings lock while it runs its callback, so calling Get
from it blocked forever for any query such as m{l!="x"} or m{l=""} over a
series that has the label.
---
 promq/prom/query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 6550582..4ff3fc6 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -199,7 +199,8 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				// IterValues holds the postings lock, so don't try to take it again
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From d45f4e63d2bfd086dbbaf5b060d64d18136e8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 03/41] fix: forget fully cleaned series so new data for them
 is visible again

Clean dropped the postings of a series whose samples were all too old but kept
its entry in the series map, so later samples of the same series were stored
where no query could find them; it also read the first sample of an empty
block.
---
 promq/prom/query.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 4ff3fc6..cd6f3e9 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -130,6 +131,12 @@ func (s *rangeStorage) Clean(olderThan int64) {
 	}
 
 	s.postings.Delete(postingsToClean)
+	// forget the series entirely, so that new data for them is indexed afresh
+	for ref := range postingsToClean {
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
 	/*
 		// first, find the first timestamp newer than our cutoff
 		startKeeps := sort.Search(len(s.knownTimes), func(ind int) bool {
-- 
2.43.0


From 0e1abb60aae7e45be1143d41d0258106e34bc55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 04/41] fix: never move a series iterator backwards on Seek

chunkenc.Iterator requires Seek to leave the iterator alone when the current
sample is already at or past the target, and to stay exhausted once exhausted.
---
 promq/prom/query.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index cd6f3e9..dcb2e66 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -298,8 +298,15 @@ func (s *blockSeries) Next() bool {
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
-	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
-		return s.block.data[ind].timestamp >= targetTime
+	if s.ind < 0 {
+		s.ind = 0
+	}
+	if s.ind >= len(s.block.data) {
+		return false
+	}
+	// never move backwards: only look from the current sample onwards
+	s.ind += sort.Search(len(s.block.data)-s.ind, func(off int) bool {
+		return s.block.data[s.ind+off].timestamp >= targetTime
 	})
 	return s.ind < len(s.block.data)
 }
-- 
2.43.0


From d4ae4938542715a419252111b4e7cb6b668d0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 05/41] fix: report label names and values as the querier
 interface defines them

LabelNames included the internal all-postings key and was unsorted, and both
LabelNames and LabelValues compared the matchers against the label name asked
about instead of restricting the result to the matching series.
---
 promq/prom/query.go | 50 ++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index dcb2e66..793e9ba 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -220,30 +220,48 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 
 func (q *memQuerier) LabelValues(name string, matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
 	// doesn't look like we need to error on missing label from the prom implementations
-	var res []string
-	q.storage.postings.IterValues(name, func(val string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
+	found := make(map[string]struct{})
+	if len(matchers) == 0 {
+		q.storage.postings.IterValues(name, func(val string) {
+			found[val] = struct{}{}
+		})
+	} else {
+		set := q.Select(false, nil, matchers...)
+		for set.Next() {
+			if val := set.At().Labels().Get(name); val != "" {
+				found[val] = struct{}{}
 			}
 		}
-		res = append(res, val)
-	})
-	return res, nil, nil
+	}
+	return sortedKeys(found), nil, nil
 }
 
 func (q *memQuerier) LabelNames(matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
-	var res []string
-	q.storage.postings.IterNames(func(name string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
+	found := make(map[string]struct{})
+	if len(matchers) == 0 {
+		q.storage.postings.IterNames(func(name string) {
+			found[name] = struct{}{}
+		})
+	} else {
+		set := q.Select(false, nil, matchers...)
+		for set.Next() {
+			for _, lbl := range set.At().Labels() {
+				found[lbl.Name] = struct{}{}
 			}
 		}
-		res = append(res, name)
-	})
-	return res, nil, nil
+	}
+	// the key of the "all postings" list isn't a label
+	delete(found, allPostingsKey.Name)
+	return sortedKeys(found), nil, nil
+}
 
+func sortedKeys(set map[string]struct{}) []string {
+	var res []string
+	for key := range set {
+		res = append(res, key)
+	}
+	sort.Strings(res)
+	return res
 }
 
 func (q *memQuerier) Close() error {
-- 
2.43.0


From 6dbe8289297b8e29b1af4e9dad8d04b98f7952a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 06/41] fix: honour the request for sorted series in Select

---
 promq/prom/query.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 793e9ba..e8bdc63 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -215,9 +215,27 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 	}
 
 	finalPostings := index.Intersect(sets...)
+	if sortSeries {
+		finalPostings = q.sortedByLabels(finalPostings)
+	}
 	return q.newSeriesSet(finalPostings)
 }
 
+// sortedByLabels orders postings by the labels of the series they refer to.
+func (q *memQuerier) sortedByLabels(postings index.Postings) index.Postings {
+	var refs []uint64
+	for postings.Next() {
+		refs = append(refs, postings.At())
+	}
+	if err := postings.Err(); err != nil {
+		return index.ErrPostings(err)
+	}
+	sort.Slice(refs, func(i, j int) bool {
+		return labels.Compare(q.storage.data[refs[i]].series, q.storage.data[refs[j]].series) < 0
+	})
+	return index.NewListPostings(refs)
+}
+
 func (q *memQuerier) LabelValues(name string, matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
 	// doesn't look like we need to error on missing label from the prom implementations
 	found := make(map[string]struct{})
-- 
2.43.0


From 728f400cdae2e1dfa2cd3eed1b6e6dc7a686fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 07/41] fix: return a copy of the stored label values from the
 index

The internal set was returned, which later updates keep writing to, so a
completion iterating over it raced with (and could crash on) a scrape.
---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..f7983de 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// hand out a copy: the caller reads it without holding our lock
+	return sets.NewString(values.UnsortedList()...)
 }
-- 
2.43.0


From 03a9aa66de4e53f2af7b5379cd369422594eb282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 08/41] fix: read the current query under its lock

SetQuery writes the query under queryMu from the prompt's goroutine while every
scrape read it without the lock.
---
 promq/prom/multi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..30ad555 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -102,10 +102,14 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	q.queryMu.RLock()
+	queryText := q.Query
+	q.queryMu.RUnlock()
+
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, queryText, time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -113,7 +117,7 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 		var err error
 		end := time.Now()
 		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, queryText, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
-- 
2.43.0


From 50714b14fda152ec00b0b310a0739d3ec130679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 09/41] fix: hold the storage lock while manually executing a
 query

ManuallyExecuteQuery read the storage without synchronization with a scrape
loading data into it.
---
 promq/prom/multi.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 30ad555..b95cd13 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -95,13 +95,20 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 		return err
 	}
 
-	if err := q.ManuallyExecuteQuery(ctx, q.Callback); err != nil {
+	if err := q.executeQuery(ctx, q.Callback); err != nil {
 		return fmt.Errorf("unable to execute query: %w", err)
 	}
 	return nil
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	q.storageMu.RLock()
+	defer q.storageMu.RUnlock()
+	return q.executeQuery(ctx, cb)
+}
+
+// executeQuery runs the current query.  The caller must hold storageMu.
+func (q *PeriodicData) executeQuery(ctx context.Context, cb ResultsCallback) error {
 	q.queryMu.RLock()
 	queryText := q.Query
 	q.queryMu.RUnlock()
-- 
2.43.0


From a7c2295a5d550b1613ab2b3244b2b5e3f0961418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 10/41] fix: give each series iterator its own position

storage.Series.Iterator must return a new, independent iterator; the series
returned itself, so a second iterator continued where the first one stopped.
---
 promq/prom/query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index e8bdc63..6ff5ac2 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -324,7 +324,8 @@ type blockSeries struct {
 }
 
 func (s *blockSeries) Iterator() chunkenc.Iterator {
-	return s
+	// each iterator has its own position
+	return &blockSeries{block: s.block, ind: -1}
 }
 func (s *blockSeries) Labels() labels.Labels {
 	return s.block.series
-- 
2.43.0


From 76e8305c32dfbf97e19064a5c96d1f3aae64236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 11/41] fix: treat a non-200 response as a failed scrape

The body of an error response was parsed as metrics: an empty 503 counted as a
successful scrape of a target without metrics.
---
 cmd/metrics/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 320ff55..1d3a649 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -110,6 +110,10 @@ func (s *httpSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.T
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to fetch raw metrics data: server returned HTTP status %s", resp.Status)
+	}
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, fmt.Errorf("unable to read metrics response body: %w", err)
-- 
2.43.0


From 7bf76b411fbf2efb800d9d3d1925f46bc329b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 12/41] fix: start the periodic scrape only once its callback
 is set

The scrape loop was started before runner.Callback was assigned, which is a
data race (and a nil call if the assignment comes late); in one-shot mode it
also competed with the single scrape and could print the result twice.
---
 cmd/metrics/metrics.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 1d3a649..75b2333 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -182,9 +182,6 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 		Instant:  !flags.Continuous,
 	}
 
-	// asyncronously trigger scrape
-	go c.scrape(ctx, runner)
-
 	//c := NewPromQLCompleter(index)
 	if flags.Continuous {
 		// it's valid, let's try drawing
@@ -430,6 +427,10 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 	}
 
 	ctx, stopScreen := context.WithCancel(ctx)
+
+	// asyncronously trigger scrape, now that there's a callback to give the results to
+	go c.scrape(ctx, runner)
+
 	go promptView.Run(ctx, &qs, stopScreen)
 
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
-- 
2.43.0


From a2cb6271a3503cbb747731e9ca938a4e88d9e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 13/41] fix: wait for the prompt to be set up before displaying
 it

PromptView must not be used until OnSetup has been called; the runner could
flush it or send it keys while its writer and reader were still nil.
---
 cmd/metrics/metrics.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 75b2333..9dfbb77 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -426,12 +426,17 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 		return nil
 	}
 
+	// the prompt can't be displayed or sent keys until it's been set up
+	promptReady := make(chan struct{})
+	promptView.OnSetup = func() { close(promptReady) }
+
 	ctx, stopScreen := context.WithCancel(ctx)
 
 	// asyncronously trigger scrape, now that there's a callback to give the results to
 	go c.scrape(ctx, runner)
 
 	go promptView.Run(ctx, &qs, stopScreen)
+	<-promptReady
 
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
 		return err
-- 
2.43.0


From 8a9ba1a799b71df8887cc4d07b12da3cccd690b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 14/41] fix: complete at the cursor's byte offset, not its
 display column

The completer cuts the query at a byte position, but was given the width of
the text before the cursor, so any multi-byte or wide character before the
cursor completed a truncated (even mid-character) query.
---
 cmd/metrics/autocompleter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..903f645 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -40,7 +40,7 @@ func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
 	if d.TextBeforeCursor() == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	ret := c.promCompleter.GenerateSuggestions(d.Text, len(d.TextBeforeCursor()))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
 		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
-- 
2.43.0


From 59ed7355528711e53332ac9afdd0432c28b937e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 15/41] fix: report how far compared tokens overlap when one
 list extends the other

---
 promq/autocomplete/earley/luthor.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..8347ada 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,7 +63,6 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
@@ -72,7 +71,7 @@ func (ws Tokens) Compare(tks2 Tokens) int {
 	}
 	// return negative i if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From 9697a44bacc66326e234a890df8301e9108c9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 16/41] fix: forget previously parsed tokens when parsing from
 the beginning

---
 promq/autocomplete/earley/earley.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..0c20841 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -141,6 +141,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
 	p.chart.resetChartBeforeIndex(0)
+	p.words = nil // forget the tokens that the chart was built from
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
 	return p.chart
-- 
2.43.0


From bd78c49af62e0d5fee71bd0bece9caa99a6b51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 17/41] fix: don't panic completing a query whose first token
 is invalid

---
 promq/autocomplete/earley/earley.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 0c20841..6c27f84 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -185,12 +185,13 @@ func (p *Earley) PartialParse(tokens Tokens, chartIndex int) *earleyChart {
 }
 
 func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken) {
-	lastTokenPos := len(tokens) - 1
-	if lastTokenPos < 0 {
-		lastTokenPos = 0
+	if len(tokens) == 0 {
+		// not even the first token could be recognized, so nothing can follow
+		return nil
 	}
+	lastTokenPos := len(tokens) - 1
 
-	if p.words == nil || len(p.words) == 0 || len(tokens) == 0 || !p.words[0].equals(tokens[0]) {
+	if p.words == nil || len(p.words) == 0 || !p.words[0].equals(tokens[0]) {
 		p.ParseTokens(tokens)
 	} else {
 		result := p.words.Compare(tokens)
-- 
2.43.0


From 5b57ea282b52501337ccc4ad0b57b73250408919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 18/41] fix: find the completion prefix by byte offset, so
 non-ASCII text doesn't panic

---
 promq/autocomplete/earley/completer.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..a07d99f 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,7 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
-- 
2.43.0


From 8d3b36f189b61b657dc3aa55dac6d3d32a67fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 19/41] fix: keep the case of the items that case-insensitive
 filters return

---
 promq/autocomplete/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/filter.go b/promq/autocomplete/filter.go
index c44bcc7..26211ee 100644
--- a/promq/autocomplete/filter.go
+++ b/promq/autocomplete/filter.go
@@ -56,10 +56,11 @@ func filterSet(autocompletions sets.String, sub string, ignoreCase bool, inclusi
 	}
 	ret := sets.NewString()
 	for _, item := range autocompletions.List() {
+		compared := item
 		if ignoreCase {
-			item = strings.ToLower(item)
+			compared = strings.ToLower(item)
 		}
-		if inclusionFunc(item, sub) {
+		if inclusionFunc(compared, sub) {
 			ret.Insert(item)
 		}
 	}
-- 
2.43.0


From 7ca1966f1db799c14cd5c0b151b276d0852abc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 20/41] fix: complete after labels named like functions,
 aggregations or keywords

---
 promq/autocomplete/earley/grammar.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/promq/autocomplete/earley/grammar.go b/promq/autocomplete/earley/grammar.go
index 2c45835..567648b 100644
--- a/promq/autocomplete/earley/grammar.go
+++ b/promq/autocomplete/earley/grammar.go
@@ -158,6 +158,13 @@ func (t terminal) String() string {
 }
 
 func (t terminal) isMatchingTerminal(tt TokenType) bool {
+	if t.tokenSubType != nil && *t.tokenSubType == METRIC_LABEL_SUBTYPE {
+		// labels may be named like functions, aggregations and keywords are
+		switch tt {
+		case FUNCTION_SCALAR_ID, FUNCTION_VECTOR_ID, AGGR_OP, AGGR_KW, BOOL_KW, OFFSET_KW, GROUP_SIDE, GROUP_KW, SET:
+			return true
+		}
+	}
 	return t.tokenType == tt || (t.tokenSubType != nil && *t.tokenSubType == tt)
 }
 func (t terminal) getType() *TokenType {
-- 
2.43.0


From a525f5062fba421d01f5ea1a325e1ff1c96893c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 21/41] fix: don't take the @ modifier for a comparison
 operator when completing

---
 promq/autocomplete/earley/luthor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 8347ada..bf03b00 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -278,7 +278,8 @@ func isAggregator(item parser.ItemType) bool {
 }
 
 func isOperator(item parser.ItemType) bool {
-	return item == parser.EQL || (item > 57367 && item < 57387)
+	// the @ modifier is listed among the operators, but isn't used like one
+	return item == parser.EQL || (item > 57367 && item < 57387 && item != parser.AT)
 }
 
 func isScalarFunction(item parser.Item) bool {
-- 
2.43.0


From 60128b951eec0fe7403020f1d777950eb34ffb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 22/41] fix: plot series without points instead of crashing

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..90a7a6e 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -185,7 +185,7 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 		}
 
 		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From 206933b2ce52739ccf6a8941c0fb2fd8d1c7da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 23/41] fix: skip NaN and infinite values when plotting instead
 of crashing

---
 promq/term/plot/plot.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 90a7a6e..ca2c594 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -103,6 +103,9 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 
 			for _, pt := range pts {
 				val := pt.Y()
+				if !isFinite(val) {
+					continue // can't be plotted
+				}
 				if val < res.RangeMin {
 					res.RangeMin = val
 				}
@@ -116,6 +119,11 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 	return res
 }
 
+// isFinite checks that the given value is neither NaN nor an infinity.
+func isFinite(val float64) bool {
+	return !math.IsNaN(val) && !math.IsInf(val, 0)
+}
+
 func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize) (func(int64) Column, func(float64) Row) {
 	// since the valid values for rows are [0, Rows), subtract one to make sure
 	// that g.DomainMax --> Rows-1 < Rows, and similarly for cols
@@ -162,6 +170,10 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 
 		for _, inPoint := range inSeries.Points() {
 			inX, inY := inPoint.X(), inPoint.Y()
+			if !isFinite(inY) {
+				// there's no row for NaN or an infinity
+				continue
+			}
 
 			col, row := domain(inX), rng(inY)
 			if lastPt != nil {
-- 
2.43.0


From e9a62beb9d389b0164c80d68180c873d1be26956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 24/41] fix: place points of huge, tiny and non-linearly scaled
 ranges inside the graph

---
 promq/term/plot/plot.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index ca2c594..a59c900 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -130,7 +130,13 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 
 	// avoid issues with flat lines
 	domainDiff := g.DomainMax - g.DomainMin
-	rangeDiff := scale(g.RangeMax) - scale(g.RangeMin)
+	rangeMin, rangeMax := scale(g.RangeMin), scale(g.RangeMax)
+	rangeFactor := 1.0
+	if isFinite(rangeMin) && isFinite(rangeMax) && math.IsInf(rangeMax-rangeMin, 0) {
+		// the difference doesn't fit in a float, so halve everything
+		rangeFactor = 0.5
+	}
+	rangeDiff := rangeMax*rangeFactor - rangeMin*rangeFactor
 	if domainDiff == 0 {
 		domainDiff = 1
 	}
@@ -138,14 +144,14 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 		rangeDiff = 1
 	}
 	domainScaleFactor := float64(size.Cols-1)/float64(domainDiff)
-	rangeScaleFactor := float64(size.Rows-1)/float64(rangeDiff)
 
 	// TODO: is this rounding necessary for most data?
 	domain := func(x int64) Column {
 		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		// divide first: the inverse of a tiny difference doesn't fit in a float
+		return Row(math.Round((scale(y)*rangeFactor-rangeMin*rangeFactor)/rangeDiff*float64(size.Rows-1)))
 	}
 
 	return domain, rng
-- 
2.43.0


From 7a92e7e54590fe87cf4cd151204b700bc42690bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 25/41] fix: stop computing range ticks when the increment
 makes no progress

---
 promq/term/plot/axes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..9595fe3 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -122,6 +122,9 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 		}
 		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
 			platRngTicks = append(platRngTicks, x)
+			if x+platRngInc <= x {
+				break // flat negative, or an increment too small to matter
+			}
 		}
 		// always put a tick @ max
 		if len(platRngTicks) > 0 && platRngTicks[len(platRngTicks)-1] != graph.RangeMax {
-- 
2.43.0


From 5b4cca7c5ba536fc1f5e288d3e52a0f9442ded8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 26/41] fix: keep domain ticks inside the domain when it is
 very short

---
 promq/term/plot/axes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 9595fe3..4ff7fbb 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -92,7 +92,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
 		if platDomInc == 0 {
-			platDomInc = graph.DomainMax // just two ticks
+			numTicks = 1 // just two ticks, with the one @ max
 		}
 		platDomTicks = make([]int64, numTicks)
 		for i := range platDomTicks {
-- 
2.43.0


From fc38691ad836b3e870d9c50233d43ae7ab3de96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 27/41] fix: draw no domain ticks when there is no data

---
 promq/term/plot/axes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 4ff7fbb..d33dbc4 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -70,7 +70,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 	// use the data to inspire the number of domain ticks, putting actual data points into buckets
 	var platDomTicks []int64
-	{
+	if graph.DomainMin <= graph.DomainMax { // i.e. there's data
 		domTicksBase := int64(int(outerSize.Cols) / scale.DomainDensity)
 		if domTicksBase == 0 {
 			domTicksBase = 1
-- 
2.43.0


From 90c671c8ddaa3af0070aa4a26fdeb75485992c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 28/41] fix: move the contents down when scrolling up past the
 top

---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..d3865ce 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -191,7 +191,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From 32a67cc814667e0d314619927052842e2beecdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 29/41] fix: leave out characters that are wider than their box

---
 promq/term/wrapper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index d3865ce..e292509 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -117,6 +117,10 @@ func (t *textWrapper) WriteString(str string, sty tcell.Style) {
 // If the runes would be too wide to contain the given content, this will wrap
 // to the next line.
 func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
+	if width > t.cols {
+		// there's no place where it'd fit
+		return
+	}
 	if remaining := t.cols - t.cursorCol; remaining < width {
 		// wrap if needed
 		t.Newline()
-- 
2.43.0


From 76d1ea17a147b78740e71f1e724a865a9d01e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 30/41] fix: keep the prompt's cursor inside its box

---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 47 +++++++++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6598273 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index e292509..1bd537b 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,13 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+
+	// don't leave the cursor outside (right after the last column is okay,
+	// it means that the next character wraps)
+	if t.cursorCol > cols {
+		t.cursorCol = cols
+	}
+	t.cursorRow = clamp(t.cursorRow, rows-1)
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
@@ -246,19 +253,13 @@ func (t *textWrapper) EraseLine() {
 // CursorForward moves the cursor forward n columns, stopping at
 // the 0th column of the wrapper.
 func (t *textWrapper) CursorForward(n int) {
-	t.cursorCol += n
-	if t.cursorCol >= t.cols {
-		t.cursorCol = t.cols-1
-	}
+	t.moveCursor(0, n)
 }
 
 // CursorForward moves the cursor forward n columns, stopping at
 // the last column of the wrapper.
 func (t *textWrapper) CursorBackward(n int) {
-	t.cursorCol -= n
-	if t.cursorCol < 0 {
-		t.cursorCol = 0
-	}
+	t.moveCursor(0, -n)
 }
 
 // CursorPosition reports the column and row of the cursor.
@@ -274,15 +275,31 @@ func (t *textWrapper) CursorGoTo(row, col int) {
 
 // CursorDown moves the cursor down n rows, stopping at the bottom of wrapper.
 func (t *textWrapper) CursorDown(n int) {
-	t.cursorRow += n
-	if t.cursorRow >= t.rows {
-		t.cursorRow = t.rows-1
-	}
+	t.moveCursor(n, 0)
 }
 // CursorUp moves the cursor up n rows, stopping at the top of wrapper.
 func (t *textWrapper) CursorUp(n int) {
-	t.cursorRow -= n
-	if t.cursorRow < 0 {
-		t.cursorRow = 0
+	t.moveCursor(-n, 0)
+}
+
+// moveCursor moves the cursor by the given number of rows and columns (either
+// of which may be negative), stopping at the edges of the wrapper.
+func (t *textWrapper) moveCursor(rows, cols int) {
+	if rows != 0 {
+		t.cursorRow = clamp(t.cursorRow+rows, t.rows-1)
+	}
+	if cols != 0 {
+		t.cursorCol = clamp(t.cursorCol+cols, t.cols-1)
+	}
+}
+
+// clamp limits pos to [0, max].
+func clamp(pos, max int) int {
+	if pos > max {
+		pos = max
+	}
+	if pos < 0 {
+		pos = 0
 	}
+	return pos
 }
-- 
2.43.0


From b2151e6594ace79ceea7a6a6f68eeb83d69283dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 31/41] fix: read the prompt's position under its lock when
 showing the cursor

---
 promq/term/prompt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 6598273..379f631 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -101,8 +101,12 @@ func (w *cellWriter) EraseScreen() {
 	w.Erase()
 }
 func (w *cellWriter) ShowCursor() {
-	cursorCol, cursorRow := w.CursorPosition()
-	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
+	w.textMu.Lock()
+	cursorCol, cursorRow := w.text.CursorPosition()
+	screenCol, screenRow := w.startCol+cursorCol, w.startRow+cursorRow
+	w.textMu.Unlock()
+
+	w.screen.ShowCursor(screenCol, screenRow)
 }
 func (w *cellWriter) HideCursor() {
 	w.screen.HideCursor()
-- 
2.43.0


From a1fe715a3985e7c315b9c61a7f61f711cdce8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 32/41] fix: send each special key as a sequence that go-prompt
 reads back as that key

---
 promq/term/keytobytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/promq/term/keytobytes.go b/promq/term/keytobytes.go
index bd9e5f0..183461f 100644
--- a/promq/term/keytobytes.go
+++ b/promq/term/keytobytes.go
@@ -47,6 +47,9 @@ func nonRuneKeyToBytes(evt *tcell.EventKey) []byte {
 	switch rawKey {
 	case tcell.KeyTab:
 		key = prompt.Tab
+	case tcell.KeyCtrlJ:
+		// go-prompt has no sequence for this one, since it's what it calls enter
+		key = prompt.Enter
 	case tcell.KeyCtrlSpace:
 		key = prompt.ControlSpace
 	case tcell.KeyCtrlBackslash:
@@ -125,7 +128,8 @@ func nonRuneKeyToBytes(evt *tcell.EventKey) []byte {
 	// this is hillariously inefficient since go-prompt immediately reverses
 	// it, but it's what we're stuck with
 	for _, seq := range prompt.ASCIISequences {
-		if seq.Key == key {
+		// skip the sequences that go-prompt takes for an earlier key
+		if seq.Key == key && prompt.GetKey(seq.ASCIICode) == key {
 			return seq.ASCIICode
 		}
 	}
-- 
2.43.0


From a49dafedb2bc7bb5bd337f6b635c76e50a520e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 33/41] fix: drop keys for a prompt that's stopped instead of
 blocking on them

---
 promq/term/prompt.go     | 9 +++++++--
 promq/term/withprompt.go | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 379f631..a28a5f6 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -149,6 +149,8 @@ type screenParser struct {
 	// NB(directxman12): go-prompt assumes shortcut keys and things like enter come in on their
 	// own event, so we send keys individually and collapse non-newline runes in read inline
 	evts chan *tcell.EventKey
+	// done is closed once nothing is going to read the events any more
+	done <-chan struct{}
 	leftOvers []byte
 	mu sync.Mutex
 }
@@ -232,12 +234,15 @@ CollapseLoop:
 }
 
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
-	p.evts <- evt
+	select {
+	case p.evts <- evt:
+	case <-p.done:
+	}
 }
 
 func (p *screenParser) AddString(str string) {
 	for _, rn := range str {
-		p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0)
+		p.AddKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
 	}
 }
 
diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 7244e04..23cd578 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -88,6 +88,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	}
 	v.reader = &screenParser{
 		evts: make(chan *tcell.EventKey, 30),
+		done: ctx.Done(),
 	}
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
 	start := make(chan struct{})
-- 
2.43.0


From 07f53d5d86f1ecec25c6b82ba5cded590c10f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 34/41] fix: don't lose requested views when there are many
 events or no screen yet

---
 promq/term/runner.go | 68 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 3793a9c..af8bd6e 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -52,6 +52,11 @@ type View interface {
 // a functional reactive UI framework, except a bit inside-out.
 type Runner struct {
 	screen tcell.Screen
+	// pendingView and needsPaint are what was requested since the event loop
+	// last looked.  The screen drops events when there are too many of them, so
+	// the interrupt events just wake up the event loop to look at these.
+	pendingView View
+	needsPaint bool
 	screenMu sync.Mutex
 
 	// KeyHandler receives key events produced during Run.  It must be specified.
@@ -94,6 +99,11 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 	r.screenMu.Unlock()
 
 	mainView := initialView
+	if newView, _ := r.takeRequests(); newView != nil {
+		screenCols, screenRows := screen.Size()
+		mainView = newView
+		mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+	}
 
 	// paint one initial time in case we don't get the immediate resize event
 	if mainView != nil {
@@ -109,20 +119,23 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 		}
 		for evt := screen.PollEvent(); evt != nil; evt = screen.PollEvent() {
 			screenCols, screenRows := screen.Size()
+			newView, needsPaint := r.takeRequests()
+			if newView != nil {
+				// clearing is less efficient, but means we
+				// don't get weird artifacts from the sidebar resizing, etc
+				screen.Clear()
+				mainView = newView
+				mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+			}
 			switch evt := evt.(type) {
 			case *tcell.EventKey:
 				r.KeyHandler(evt)
-				continue
-			case *tcell.EventInterrupt:
-				newView, hasNewView := evt.Data().(View)
-				if hasNewView {
-					// clearing is less efficient, but means we
-					// don't get weird artifacts from the sidebar resizing, etc
-					screen.Clear()
-					mainView = newView
-					mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+				if !needsPaint {
+					continue
 				}
 				// continue below
+			case *tcell.EventInterrupt:
+				// continue below
 			case *tcell.EventResize:
 				screenCols, screenRows = evt.Size()
 				if mainView != nil {
@@ -160,7 +173,7 @@ func (r *Runner) RequestRepaint() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.PostEvent(tcell.NewEventInterrupt(nil))
+	r.requestPaint()
 }
 
 // RequestRepaint replaces the current view & requests a paint of it.
@@ -169,7 +182,32 @@ func (r *Runner) RequestUpdate(newView View) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.PostEvent(tcell.NewEventInterrupt(newView))
+	if newView != nil {
+		r.pendingView = newView
+	}
+	r.requestPaint()
+}
+
+// requestPaint makes the event loop (if any) paint.  It must be called under
+// the screen lock.
+func (r *Runner) requestPaint() {
+	r.needsPaint = true
+	if r.screen != nil {
+		// it's fine if this doesn't fit in the queue, since then
+		// there are other events that the event loop has yet to see.
+		r.screen.PostEvent(tcell.NewEventInterrupt(nil))
+	}
+}
+
+// takeRequests returns the most recently requested view that's not been
+// switched to yet (nil if there's none), and whether or not a paint was requested.
+func (r *Runner) takeRequests() (newView View, needsPaint bool) {
+	r.screenMu.Lock()
+	defer r.screenMu.Unlock()
+
+	newView, needsPaint = r.pendingView, r.needsPaint
+	r.pendingView, r.needsPaint = nil, false
+	return newView, needsPaint
 }
 
 // ShowCursor shows the cursor at the given location.
@@ -177,12 +215,16 @@ func (r *Runner) ShowCursor(col, row int) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.ShowCursor(col, row)
+	if r.screen != nil {
+		r.screen.ShowCursor(col, row)
+	}
 }
 // HideCursor hides the cursor.
 func (r *Runner) HideCursor() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.HideCursor()
+	if r.screen != nil {
+		r.screen.HideCursor()
+	}
 }
-- 
2.43.0


From 81b15907e52b5353fd50b2dd38402c56ea3c2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 35/41] fix: return the error when the screen can't be
 initialized

---
 promq/term/runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index af8bd6e..22682fb 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -90,7 +90,9 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 			return err
 		}
 	}
-	screen.Init()
+	if err := screen.Init(); err != nil {
+		return err
+	}
 	// TODO(directxman12): we should probably figure out how to call Fini in a
 	// defer but before the waiting for the evtLoopDone
 
-- 
2.43.0


From 82b7878afd2657296bf09fe381f58a5201f0a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:41 +0000
Subject: [PATCH 36/41] fix: drop all keys for a stopped prompt, not every
 other one

---
 promq/term/prompt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index a28a5f6..a2f6500 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -234,6 +234,12 @@ CollapseLoop:
 }
 
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
+	select {
+	case <-p.done:
+		// drop everything from here on, not just what happens not to fit
+		return
+	default:
+	}
 	select {
 	case p.evts <- evt:
 	case <-p.done:
-- 
2.43.0


From 037b6caf1fab63856cd46aa9ed22f5e941de3053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 37/41] fix: complete label values that contain separators

---
 promq/autocomplete/earley/completer.go | 28 ++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index a07d99f..19e52bc 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -154,5 +154,33 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 func getPrefix(query string) string {
 	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
 	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	if start := lastStringStart(query); start >= 0 {
+		// separators inside of a string are part of it
+		return query[start:]
+	}
 	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
+
+// lastStringStart returns the position of the quote that starts the (possibly
+// unclosed) string that the query ends in, or -1 if it doesn't end in a string.
+func lastStringStart(query string) int {
+	start := -1
+	for i := 0; i < len(query); i++ {
+		switch c := query[i]; {
+		case start < 0 && c == '#':
+			// skip the comment
+			end := strings.IndexByte(query[i:], '\n')
+			if end < 0 {
+				return -1
+			}
+			i += end
+		case start < 0 && (c == '"' || c == '\'' || c == '`'):
+			start = i
+		case start >= 0 && c == '\\' && query[start] != '`':
+			i++ // whatever is escaped doesn't end the string
+		case start >= 0 && c == query[start] && i < len(query)-1:
+			start = -1
+		}
+	}
+	return start
+}
-- 
2.43.0


From 4c5168fc004bf92d932597509a2e099f4c601c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 38/41] fix: keep what was typed when accepting a completion

---
 cmd/metrics/autocompleter.go           | 18 +++++++++++++++---
 promq/autocomplete/earley/completer.go |  6 ++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index 903f645..cd881a5 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -17,15 +17,18 @@ limitations under the License.
 package metrics
 
 import (
-    "github.com/c-bata/go-prompt"
+	"strings"
+
+	"github.com/c-bata/go-prompt"
 
 	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
+	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
 )
 
 const (
 	// spaces can't individually demarcate individual lexical units
 	// in promql.
-	PromQLTokenSeparators = " []{}()=!~,"
+	PromQLTokenSeparators = earley.PromQLTokenSeparators
 )
 
 type Completer struct {
@@ -41,9 +44,18 @@ func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
 		return []prompt.Suggest{}
 	}
 	ret := c.promCompleter.GenerateSuggestions(d.Text, len(d.TextBeforeCursor()))
+	// accepting a suggestion replaces the word before the cursor, which isn't
+	// always the text that the suggestion completes.
+	word := d.GetWordBeforeCursorUntilSeparator(PromQLTokenSeparators)
+	beforeWord := strings.TrimSuffix(earley.CompletionPrefix(d.TextBeforeCursor()), word)
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
-		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
+		text := strings.TrimPrefix(s.GetValue(), beforeWord)
+		if s.GetKind() == "time-unit" {
+			// time units come after the number
+			text = word + s.GetValue()
+		}
+		suggests[i] = prompt.Suggest{Text: text, Description: s.GetDetail()}
 	}
 	return suggests
 }
diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index 19e52bc..f136ff8 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -151,6 +151,12 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 	return matches
 }
 
+// CompletionPrefix returns the incomplete text at the end of the query: what
+// suggestions for the query are completions of.
+func CompletionPrefix(query string) string {
+	return getPrefix(query)
+}
+
 func getPrefix(query string) string {
 	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
 	// Should we return metric_a as a prefix or return the next suggested token of metric name?
-- 
2.43.0


From e90b1af37234ac07b80374cb9874c56775eb5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 39/41] fix: query /metrics of an API server whose URL ends in
 a slash

---
 cmd/metrics/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 9dfbb77..0ca0921 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -462,5 +462,6 @@ func (c *MetricsCommand) scrape(ctx context.Context, runner *prom.PeriodicData)
 }
 
 func metricsURL(endpoint string) string {
-	return fmt.Sprintf("%s/metrics", endpoint)
+	// the server in a kubeconfig may well end in a slash
+	return fmt.Sprintf("%s/metrics", strings.TrimRight(endpoint, "/"))
 }
-- 
2.43.0


From d04db999a79bd3a3ee0a2a425507bf414185d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 40/41] fix: evaluate subqueries without a step

The engine was set up without a default step, so evaluating a subquery such
as up[5m:] failed with a nil pointer dereference. Use Prometheus' default.
---
 promq/prom/multi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index b95cd13..be75472 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -144,6 +144,8 @@ func DefaultEngineOptions(timeout time.Duration, maxSamples int) promql.EngineOp
 	return promql.EngineOpts{
 		Timeout:    timeout, // why? why is this here? THIS IS WHAT CONTEXT IS FOR!
 		MaxSamples: maxSamples,
+		// subqueries without a step can't be evaluated without this (it's Prometheus' default)
+		NoStepSubqueryIntervalFn: func(int64) int64 { return int64(time.Minute / time.Millisecond) },
 		// TODO(sollyross): anything else
 	}
 }
-- 
2.43.0


From a7b65b68ca529b76a0a92a16a2a629f39a002694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 41/41] fix: fail without a terminal instead of crashing in
 interactive mode

---
 cmd/metrics/metrics.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 0ca0921..e9a9a23 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -21,6 +21,8 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"os"
+	"runtime"
 
 	"sort"
 	"strings"
@@ -271,6 +273,15 @@ func getSortedKeys(m map[string]string) []string {
 
 // we are going to assume that the query here is valid
 func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.PeriodicData, qs string) error {
+	// without a terminal, setting up the prompt would panic
+	if runtime.GOOS != "windows" {
+		tty, err := os.Open("/dev/tty")
+		if err != nil {
+			return fmt.Errorf("unable to open the terminal: %w", err)
+		}
+		tty.Close()
+	}
+
 	ac := NewCompleter(earley.NewPromQLCompleter(runner.GetIndex()))
 	comp := ac.Complete
 
-- 
2.43.0

