package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"

	"verif/harness/h"
)

// cfg is a random context-free grammar without empty rules.
type cfg struct {
	nts   int
	terms []string  // terminal alphabet
	rules []cfgRule // symbols: <0 terminal -1-i, >=0 nonterminal
	roots []int
	sub   map[int]bool // terminals with a subtype
}

type cfgRule struct {
	left  int
	right []int
}

func (g *cfg) String() string {
	var sb strings.Builder
	for _, r := range g.rules {
		root := ""
		for _, x := range g.roots {
			if x == r.left {
				root = "*"
			}
		}
		fmt.Fprintf(&sb, "N%d%s ->", r.left, root)
		for _, s := range r.right {
			if s < 0 {
				fmt.Fprintf(&sb, " %s", g.terms[-1-s])
			} else {
				fmt.Fprintf(&sb, " N%d", s)
			}
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

// randCFG makes a grammar in which every nonterminal derives something.
func randCFG(r *rand.Rand) *cfg {
	for {
		g := &cfg{nts: 1 + r.Intn(5), sub: map[int]bool{}}
		for i := 0; i < 2+r.Intn(4); i++ {
			g.terms = append(g.terms, string(rune('a'+i)))
			if r.Intn(4) == 0 {
				g.sub[i] = true
			}
		}
		n := g.nts + r.Intn(8)
		for i := 0; i < n; i++ {
			left := i
			if i >= g.nts {
				left = r.Intn(g.nts)
			}
			var right []int
			for k := 1 + r.Intn(4); k > 0; k-- {
				if r.Intn(2) == 0 {
					right = append(right, -1-r.Intn(len(g.terms)))
				} else {
					right = append(right, r.Intn(g.nts))
				}
			}
			g.rules = append(g.rules, cfgRule{left, right})
		}
		r.Shuffle(len(g.rules), func(a, b int) { g.rules[a], g.rules[b] = g.rules[b], g.rules[a] })
		g.roots = []int{0}
		if r.Intn(4) == 0 && g.nts > 1 {
			g.roots = append(g.roots, 1)
		}
		// productive?
		prod := make([]bool, g.nts)
		for ch := true; ch; {
			ch = false
			for _, ru := range g.rules {
				ok := true
				for _, s := range ru.right {
					if s >= 0 && !prod[s] {
						ok = false
					}
				}
				if ok && !prod[ru.left] {
					prod[ru.left], ch = true, true
				}
			}
		}
		all := true
		for _, p := range prod {
			all = all && p
		}
		if all {
			return g
		}
	}
}

// nextTerminals computes by saturation which terminals can follow the word w
// in some sentence: derives[A][i][j] (A yields w[i:j]) and reach[A][i] (the
// terminals that can follow w when A starts at i and is still unfinished).
func (g *cfg) nextTerminals(w []int) map[int]bool {
	n := len(w)
	der := make([][][]bool, g.nts)
	for a := range der {
		der[a] = make([][]bool, n+1)
		for i := range der[a] {
			der[a][i] = make([]bool, n+1)
		}
	}
	// ends(rule prefix of length k starting at i)
	cur, nx := make([]bool, n+1), make([]bool, n+1)
	ends := func(right []int, k, i int) []int {
		for x := range cur {
			cur[x] = x == i
		}
		for x := 0; x < k; x++ {
			for y := range nx {
				nx[y] = false
			}
			s := right[x]
			for p := range cur {
				if !cur[p] {
					continue
				}
				if s < 0 {
					if p < n && w[p] == -1-s {
						nx[p+1] = true
					}
				} else {
					for q := p; q <= n; q++ {
						if der[s][p][q] {
							nx[q] = true
						}
					}
				}
			}
			cur, nx = nx, cur
		}
		var res []int
		for p := range cur {
			if cur[p] {
				res = append(res, p)
			}
		}
		return res
	}
	for ch := true; ch; {
		ch = false
		for _, ru := range g.rules {
			for i := 0; i <= n; i++ {
				for _, j := range ends(ru.right, len(ru.right), i) {
					if !der[ru.left][i][j] {
						der[ru.left][i][j], ch = true, true
					}
				}
			}
		}
	}
	reach := make([][]map[int]bool, g.nts)
	for a := range reach {
		reach[a] = make([]map[int]bool, n+1)
		for i := range reach[a] {
			reach[a][i] = map[int]bool{}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, ru := range g.rules {
			for i := 0; i <= n; i++ {
				for k, s := range ru.right {
					for _, p := range ends(ru.right, k, i) {
						if s < 0 {
							if p == n && !reach[ru.left][i][-1-s] {
								reach[ru.left][i][-1-s], ch = true, true
							}
						} else {
							for t := range reach[s][p] {
								if !reach[ru.left][i][t] {
									reach[ru.left][i][t], ch = true, true
								}
							}
						}
					}
				}
			}
		}
	}
	out := map[int]bool{}
	for _, a := range g.roots {
		for t := range reach[a][0] {
			out[t] = true
		}
	}
	return out
}

func (g *cfg) build() *earley.Earley {
	nts := make([]earley.NonTerminalNode, g.nts)
	for i := range nts {
		root := false
		for _, x := range g.roots {
			root = root || x == i
		}
		nts[i] = earley.NewNonTerminal(fmt.Sprintf("N%d", i), root)
	}
	ts := make([]earley.EarleyNode, len(g.terms))
	for i, t := range g.terms {
		if g.sub[i] {
			ts[i] = earley.NewTerminalWithSubType(earley.TokenType("t-"+t), earley.TokenType("s-"+t))
		} else {
			ts[i] = earley.NewTerminal(earley.TokenType("t-" + t))
		}
	}
	var rules []*earley.GrammarRule
	for _, ru := range g.rules {
		var right []earley.Symbol
		for _, s := range ru.right {
			if s < 0 {
				right = append(right, ts[-1-s])
			} else {
				right = append(right, nts[s])
			}
		}
		rules = append(rules, earley.NewRule(nts[ru.left], right...))
	}
	return earley.NewEarleyParser(*earley.NewGrammar(rules...))
}

func (g *cfg) tokens(r *rand.Rand, w []int) earley.Tokens {
	var out earley.Tokens
	pos := 0
	for _, t := range w {
		ty := "t-" + g.terms[t]
		if g.sub[t] && t%2 == 0 {
			ty = "s-" + g.terms[t] // a token may carry the subtype itself
		}
		out = append(out, earley.Tokhan{StartPos: pos, EndPos: pos + 1, Val: g.terms[t], Type: earley.TokenType(ty)})
		pos += 2
	}
	return append(out, earley.Tokhan{StartPos: pos, EndPos: pos, Type: earley.EOF, Val: ""})
}

func (g *cfg) names(set map[int]bool) string {
	var out []string
	for t := range set {
		if g.sub[t] {
			out = append(out, "s-"+g.terms[t])
		} else {
			out = append(out, "t-"+g.terms[t])
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (g *cfg) randWord(r *rand.Rand, prev []int) []int {
	// walk along viable tokens most of the time, so that words stay alive
	w := append([]int(nil), prev...)
	switch r.Intn(8) {
	case 0:
		w = w[:r.Intn(len(w)+1)]
	case 1:
		w = nil
	case 2:
		if len(w) > 0 {
			w[r.Intn(len(w))] = r.Intn(len(g.terms))
		}
	case 3:
		if len(w) > 0 {
			p := r.Intn(len(w))
			w = append(w[:p], w[p+1:]...)
		}
	}
	for k := r.Intn(4); k > 0 && len(w) < 12; k-- {
		if r.Intn(8) == 0 {
			w = append(w, r.Intn(len(g.terms)))
			continue
		}
		nx := g.nextTerminals(w)
		var ks []int
		for t := range nx {
			ks = append(ks, t)
		}
		sort.Ints(ks)
		if len(ks) == 0 {
			break
		}
		w = append(w, ks[r.Intn(len(ks))])
	}
	return w
}

// c14: the parser's suggested token types are exactly the terminals that can come next.
func c14(c *h.Ctx) {
	c.Rule("random grammars without empty rules (left, right and mutual recursion, ambiguity, cycles, several roots, subtyped terminals) and editing sessions of token sequences on one incremental parser: after each edit the suggested token types must be exactly the terminals that an independent saturation computes to be possible next; non-trivial: at least two tokens and a non-empty answer")
	c.Assume("grammars in which every nonterminal derives some terminal string and no rule is empty, as the built-in grammar is")
	c.Cases("grammars", c.N(2500, 60000), func(i int, r *rand.Rand) {
		g := randCFG(r)
		p := g.build()
		var w []int
		var hist []string
		for step := 0; step < 14; step++ {
			w = g.randWord(r, w)
			toks := g.tokens(r, w)
			c.Desc("grammar %s session %q now %v", g, hist, toks.Vals())
			want := g.names(g.nextTerminals(w))
			var got []string
			if !c.Call("GetSuggestedTokenType", func() {
				for _, s := range p.GetSuggestedTokenType(toks) {
					got = append(got, string(s.TokenType))
				}
			}) {
				return
			}
			sort.Strings(got)
			gs := strings.Join(got, " ")
			word := ""
			for _, t := range w {
				word += g.terms[t]
			}
			c.Eval(g.String()+word, len(w) >= 2 && want != "")
			if want != "" {
				c.Count("words_alive", 1)
			}
			if gs != want {
				c.Violation("next-terminals", "grammar %s, after tokens %q (session %q): suggested %q, possible next %q", g, word, hist, gs, want)
				return
			}
			hist = append(hist, word)
			if c.WantSample() && len(w) > 3 && want != "" {
				c.Sample("%s after %q: %s", g, word, want)
			}
		}
	})
	// long texts: sentences of dozens of tokens, edited near their end and near their beginning
	c.Cases("long", c.N(600, 20000), func(i int, r *rand.Rand) {
		g := randCFG(r)
		var w []int
		for k := 0; k < 20 && len(w) < 18; k++ {
			if s := g.sentence(r, 18+r.Intn(30)); len(s) > len(w) {
				w = s
			}
		}
		if len(w) < 18 {
			c.Eval(g.String(), false)
			return
		}
		p := g.build()
		hist := []int{}
		for step := 0; step < 4; step++ {
			v := w
			switch step {
			case 1:
				v = w[:len(w)-1-r.Intn(3)]
			case 2:
				v = append([]int(nil), w...)
				v[r.Intn(len(v))] = r.Intn(len(g.terms))
			}
			toks := g.tokens(r, v)
			c.Desc("grammar %s after %v tokens now %v", g, hist, toks.Vals())
			want := g.names(g.nextTerminals(v))
			var got []string
			if !c.Call("GetSuggestedTokenType", func() {
				for _, s := range p.GetSuggestedTokenType(toks) {
					got = append(got, string(s.TokenType))
				}
			}) {
				return
			}
			sort.Strings(got)
			word := ""
			for _, t := range v {
				word += g.terms[t]
			}
			c.Eval(g.String()+word, want != "")
			if want != "" {
				c.Count("long_words_alive", 1)
			}
			if gs := strings.Join(got, " "); gs != want {
				c.Violation("next-terminals", "grammar %s, after the %d tokens %q (after texts of %v tokens): suggested %q, possible next %q", g, len(v), word, hist, gs, want)
				return
			}
			hist = append(hist, len(v))
		}
	})
}

// sentence derives a random sentence of about the given length.
func (g *cfg) sentence(r *rand.Rand, size int) []int {
	// height of the shallowest derivation, to be able to stop
	height := make([]int, g.nts)
	for i := range height {
		height[i] = 1 << 20
	}
	rh := func(ru cfgRule) int {
		m := 0
		for _, s := range ru.right {
			if s >= 0 && height[s] > m {
				m = height[s]
			}
		}
		return m + 1
	}
	for ch := true; ch; {
		ch = false
		for _, ru := range g.rules {
			if x := rh(ru); x < height[ru.left] {
				height[ru.left], ch = x, true
			}
		}
	}
	var out []int
	stack := []int{g.roots[r.Intn(len(g.roots))]}
	for steps := 0; len(stack) > 0; steps++ {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if s < 0 {
			out = append(out, -1-s)
			if len(out) >= size {
				return out
			}
			continue
		}
		var opts []cfgRule
		best := -1
		for _, ru := range g.rules {
			if ru.left == s {
				opts = append(opts, ru)
				if best < 0 || rh(ru) < rh(opts[best]) {
					best = len(opts) - 1
				}
			}
		}
		ru := opts[r.Intn(len(opts))]
		if len(stack) > 40 || steps > 400 {
			ru = opts[best]
		} else if len(stack) < 3 {
			// keep it going: prefer rules with more symbols left
			for k := 0; k < 3; k++ {
				if o := opts[r.Intn(len(opts))]; len(o.right) > len(ru.right) {
					ru = o
				}
			}
		}
		for k := len(ru.right) - 1; k >= 0; k-- {
			stack = append(stack, ru.right[k])
		}
	}
	return out
}

func init() { h.Register(h.Check{ID: "C14", Fn: c14}) }
