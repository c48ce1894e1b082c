package checks

import (
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/c-bata/go-prompt"
	"github.com/prometheus/prometheus/promql/parser"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"

	"verif/harness/gp"
	"verif/harness/h"
)

// acceptIn is what go-prompt makes of a suggestion that's accepted: the text
// before the cursor, and the whole text.
func acceptIn(text, after string, s prompt.Suggest) (before, whole string) {
	b := prompt.NewBuffer()
	b.InsertText(text+after, false, true)
	b.CursorLeft(utf8.RuneCountInString(after))
	if w := b.Document().GetWordBeforeCursorUntilSeparator(metrics.PromQLTokenSeparators); w != "" {
		b.DeleteBeforeCursor(utf8.RuneCountInString(w))
	}
	b.InsertText(s.Text, false, true)
	return b.Document().TextBeforeCursor(), b.Text()
}

// typeAndAccept does it with keys: text typed, the cursor moved back over
// after, the completion selected, Enter.
func typeAndAccept(comp prompt.Completer, text, after string, nth int) (line string, done, crashed bool) {
	w := &prompt.VT100Writer{}
	p := gp.New(comp, prompt.OptionWriter(discardWriter{w}), prompt.OptionPrefix(">>> "), prompt.OptionCompletionWordSeparator(metrics.PromQLTokenSeparators))
	gp.Start(p, &prompt.WinSize{Row: 40, Col: 200})
	keys := [][]byte{[]byte(text + after)}
	for range after {
		keys = append(keys, []byte("\x1b[D"))
	}
	for k := 0; k <= nth; k++ {
		keys = append(keys, []byte("\t"))
	}
	for _, k := range append(keys, []byte("\r")) {
		if line, done, crashed = refFeed(p, k); done || crashed {
			break
		}
	}
	return
}

type discardWriter struct{ *prompt.VT100Writer }

func (w discardWriter) Flush() error { gp.Drain(w.VT100Writer); return nil }

// hasUnit tells if units are among the offers: they are put behind the number.
func hasUnit(ms []autocomplete.Match) bool {
	for _, m := range ms {
		if m.GetKind() == "time-unit" {
			return true
		}
	}
	return false
}

func c33(c *h.Ctx) {
	c.Rule("cuts of random valid queries and arbitrary text, with more text after the cursor or none; for every offer made, what go-prompt makes of the text when it is accepted (computed with go-prompt's own buffer, and for some by typing into a real go-prompt, moving the cursor, selecting with Tab and pressing Enter): it must begin with what was typed, keep what follows the cursor, and be what the completion engine means; for cuts of valid queries one of the acceptances must yield the query up to the end of its next token. Non-trivial: at least one offer and two words typed")
	c.Assume("go-prompt replaces the word before the cursor, up to the last separator the prompt is set up with, by the offer's text")
	comp := earley.NewPromQLCompleter(stdIndex.build())
	pc := metrics.NewCompleter(comp)
	judge := func(r *rand.Rand, text, after, next, part, desc string) bool {
		doc := prompt.NewBuffer()
		doc.InsertText(text+after, false, true)
		doc.CursorLeft(utf8.RuneCountInString(after))
		d := doc.Document()
		if d.TextBeforeCursor() != text {
			c.Inconclusive("document construction is off: %q vs %q", d.TextBeforeCursor(), text)
			return false
		}
		c.Desc("accepting what's offered for %q|%q", text, after)
		var got []prompt.Suggest
		if !c.Call("complete", func() { got = pc.Complete(*d) }) {
			return false
		}
		c.Eval(text+"\x00"+after, len(got) > 0 && len(strings.Fields(text)) >= 2)
		reached := next == ""
		want := ""
		if next != "" {
			if strings.HasPrefix(next, "\"") {
				want, _ = unquoteProm(next)
			} else {
				want = next
			}
		}
		var accepted []string
		for _, s := range got {
			c.Count("acceptances", 1)
			b, whole := acceptIn(text, after, s)
			if !strings.HasPrefix(b, text) {
				c.Violation("loses-text", "accepting %q for %q%s turns it into %q", s.Text, text, desc, b)
				return false
			}
			if whole != b+after {
				c.Violation("loses-rest", "accepting %q for %q|%q%s gives %q", s.Text, text, after, desc, whole)
				return false
			}
			accepted = append(accepted, b)
			if tok := part + b[len(text):]; !reached {
				if strings.HasPrefix(next, "\"") {
					u, err := unquoteProm(tok)
					reached = err == nil && u == want
				} else {
					reached = tok == want
				}
			}
		}
		if !reached {
			c.Violation("not-reached", "no acceptance for %q%s completes %q; acceptances: %q", text, desc, next, accepted)
			return false
		}
		if !strings.Contains(text, "#") {
			var eng []string
			ok := c.Call("complete", func() {
				for _, m := range suggest(comp, text, len(text)) {
					eng = append(eng, strings.TrimSuffix(text, typedWord(text))+m.V)
				}
			})
			if !ok {
				return false
			}
			a := append([]string(nil), accepted...)
			sort.Strings(a)
			sort.Strings(eng)
			if text != "" && !sameStrings(a, eng) && !hasUnit(comp.GenerateSuggestions(text, len(text))) {
				c.Violation("prompt-engine-differ", "acceptances for %q are %q, the completion engine's are %q", text, a, eng)
				return false
			}
		}
		// with keys
		if len(got) > 0 && len(text) < 120 && r.Intn(3) == 0 && prompt.GetKey([]byte(text+after)) == prompt.NotDefined {
			nth := r.Intn(len(got))
			line, done, crashed := typeAndAccept(pc.Complete, text, after, nth)
			if crashed {
				c.Count("go_prompt_crashes", 1)
			} else if !done || line != accepted[nth]+after {
				c.Violation("keys-differ", "typing %q, going back over %q, selecting completion %d (%q) and pressing Enter enters %q, must be %q", text+after, after, nth+1, got[nth].Text, line, accepted[nth]+after)
				return false
			}
			c.Count("typed_with_keys", 1)
		}
		if c.WantSample() && len(accepted) > 1 {
			c.Sample("%q -> %d acceptances, e.g. %q", text, len(accepted), accepted[0])
		}
		return true
	}
	rest := func(r *rand.Rand) string {
		return []string{"", "", "", ")", " + up", "}", "x", "é", " or ", "\"}"}[r.Intn(10)]
	}
	c.Cases("cuts", c.N(1200, 24000), func(i int, r *rand.Rand) {
		toks := genPromQuery(r, r.Intn(4))
		full := joinTokens(r, toks, false)
		if len(toks) > 30 {
			return
		}
		if _, err := parser.ParseExpr(full); err != nil {
			c.Count("rejected_by_parser", 1)
			return
		}
		for k := range toks {
			text, part, needed := cutQuery(r, toks, k)
			if !needed || !utf8.ValidString(text) || strings.ContainsAny(text, "\n\r") {
				continue
			}
			if !judge(r, text, rest(r), toks[k].text, part, " (from the query "+full+")") {
				return
			}
		}
	})
	c.Cases("texts", c.N(2500, 50000), func(i int, r *rand.Rand) {
		text := strings.ToValidUTF8(hostileText(r), "é")
		text = strings.NewReplacer("\n", " ", "\r", " ", "\t", " ").Replace(text)
		judge(r, text, rest(r), "", "", "")
	})
	c.ListCases("subqueries", 6, func(i int) {
		text := []string{"up[5", "up[5m:3", "rate(up[1h:10", "up offset 5", "max_over_time(rate(up[5m])[30m:1", "up+node_cpu[3"}[i]
		r := rand.New(rand.NewSource(int64(i)))
		part := text[strings.LastIndexAny(text, "[: ")+1:]
		judge(r, text, "", part+"m", part, "")
	})
}

func init() { h.Register(h.Check{ID: "C33", Fn: c33}) }
