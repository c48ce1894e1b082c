package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"

	"verif/harness/h"
)

var filterBits = []string{"a", "A", "b", "B", "_", ":", "é", "É", "ß", "İ", "ı", "K", "k", "漢", "Ω", "ω", "1", " ", "\"", "\\", "\n", "x", "aa", "ab", "ſ", "s", "Σ", "ς", "σ", "\u0301"}

func genFilterText(r *rand.Rand, max int) string {
	s := ""
	for n := r.Intn(max + 1); n > 0; n-- {
		s += pick(r, filterBits)
	}
	return s
}

func lower(s string) string { return strings.ToLower(s) }

// subsequence: an independent definition, by a greedy match from the end.
func subsequence(s, sub string) bool {
	a, b := []rune(s), []rune(sub)
	i := len(a) - 1
	for k := len(b) - 1; k >= 0; k-- {
		for i >= 0 && a[i] != b[k] {
			i--
		}
		if i < 0 {
			return false
		}
		i--
	}
	return true
}

func c28(c *h.Ctx) {
	c.Rule("random string sets (mixed case, non-ASCII letters whose case variants differ in length, quotes, control characters) filtered by prefix and by subsequence, with and without case: the items kept must be exactly those of the definition, unchanged, and the set given must not be changed; quoting must keep every item apart and readable; and random sequences of set operations on all six set types compared with plain maps, the operands and earlier results staying as they were. Non-trivial: a filter keeps some items and drops others, or a sequence contains at least three operations")
	c.Cases("filters", c.N(60000, 800000), func(i int, r *rand.Rand) {
		set := sets.NewString()
		var items []string
		for n := r.Intn(9); n > 0; n-- {
			s := genFilterText(r, 5)
			set.Insert(s)
			items = append(items, s)
		}
		sort.Strings(items)
		pat := genFilterText(r, 3)
		if len(items) > 0 && r.Intn(2) == 0 { // part of an item
			rs := []rune(pick(r, items))
			if len(rs) > 0 {
				if r.Intn(2) == 0 {
					pat = string(rs[:r.Intn(len(rs)+1)])
				} else {
					pat = ""
					for _, x := range rs {
						if r.Intn(2) == 0 {
							pat += string(x)
						}
					}
				}
			}
			if r.Intn(3) == 0 {
				pat = strings.ToUpper(pat)
			}
		}
		ic := r.Intn(2) == 0
		fuzzy := r.Intn(2) == 0
		want := map[string]bool{}
		for _, it := range items {
			a, b := it, pat
			if ic {
				a, b = lower(a), lower(b)
			}
			if fuzzy && subsequence(a, b) || !fuzzy && len(a) >= len(b) && a[:len(b)] == b {
				want[it] = true
			}
		}
		all := map[string]bool{}
		for _, it := range items {
			all[it] = true
		}
		desc := fmt.Sprintf("items %q pattern %q ignore case %v fuzzy %v", keysOf(all), pat, ic, fuzzy)
		c.Desc("%s", desc)
		var got sets.String
		if !c.Call("Filter", func() {
			if fuzzy {
				got = autocomplete.FilterFuzzy(set, pat, ic)
			} else {
				got = autocomplete.FilterPrefix(set, pat, ic)
			}
		}) {
			return
		}
		if !sameStrings(keysOf(want), got.List()) {
			c.Violation("wrong-filter", "%s\nkept %q, must be %q", desc, got.List(), keysOf(want))
			return
		}
		if !sameStrings(keysOf(all), set.List()) {
			c.Violation("input-changed", "%s\nthe set is now %q", desc, set.List())
			return
		}
		c.Count("items_filtered", len(all))
		c.Eval(desc, len(want) > 0 && len(want) < len(all))
		if c.WantSample() && len(want) > 0 && len(want) < len(all) {
			c.Sample("%s -> %q", desc, got.List())
		}
		// quoting
		var q sets.String
		if !c.Call("Enquote", func() { q = autocomplete.Enquote(set) }) {
			return
		}
		back := map[string]bool{}
		for _, s := range q.List() {
			u, err := strconv.Unquote(s)
			if err != nil || len(s) < 2 || s[0] != '"' {
				c.Violation("wrong-quote", "%s\n%s isn't a quoted string", desc, s)
				return
			}
			if p, err := unquoteProm(s); err != nil || p != u {
				c.Violation("wrong-quote", "%s\n%s isn't read as %q by PromQL (%q, %v)", desc, s, u, p, err)
				return
			}
			back[u] = true
		}
		if !sameStrings(keysOf(back), keysOf(all)) || len(q) != len(all) || !sameStrings(keysOf(all), set.List()) {
			c.Violation("wrong-quote", "%s\nquoted as %q", desc, q.List())
		}
	})
	c.Cases("sets", c.N(6000, 100000), func(i int, r *rand.Rand) {
		switch i % 6 {
		case 0:
			setOps(c, r, "String", func(k int) any { return fmt.Sprintf("%c%d", "ZazA"[k%4], k) }, func(xs []any) any { return sets.NewString(conv[string](xs)...) }, func(m any) any { return sets.StringKeySet(m) })
		case 1:
			setOps(c, r, "Int", func(k int) any { return []int{0, -1, 1 << 62, -(1 << 62), 9, 10, 2}[k%7] + k/7 }, func(xs []any) any { return sets.NewInt(conv[int](xs)...) }, func(m any) any { return sets.IntKeySet(m) })
		case 2:
			setOps(c, r, "Int32", func(k int) any { return []int32{0, -1, 1 << 30, -(1 << 30), 9, 10, 2}[k%7] + int32(k/7) }, func(xs []any) any { return sets.NewInt32(conv[int32](xs)...) }, func(m any) any { return sets.Int32KeySet(m) })
		case 3:
			setOps(c, r, "Int64", func(k int) any { return []int64{0, -1, 1 << 62, -(1 << 62), 9, 10, 1 << 33}[k%7] + int64(k/7) }, func(xs []any) any { return sets.NewInt64(conv[int64](xs)...) }, func(m any) any { return sets.Int64KeySet(m) })
		case 4:
			setOps(c, r, "Uint64", func(k int) any { return []uint64{0, 1 << 63, 1 << 62, 5, 9, 10, 1 << 33}[k%7] + uint64(k/7) }, func(xs []any) any { return sets.NewUint64(conv[uint64](xs)...) }, func(m any) any { return sets.Uint64KeySet(m) })
		case 5:
			setOps(c, r, "Byte", func(k int) any { return byte([]int{0, 255, 128, 127, 9, 10, 2}[k%7] + k/7) }, func(xs []any) any { return sets.NewByte(conv[byte](xs)...) }, func(m any) any { return sets.ByteKeySet(m) })
		}
	})
}

func conv[T any](xs []any) []T {
	var out []T
	for _, x := range xs {
		out = append(out, x.(T))
	}
	return out
}

func lessAny(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch {
	case va.Kind() == reflect.String:
		return va.String() < vb.String()
	case va.CanInt():
		return va.Int() < vb.Int()
	default:
		return va.Uint() < vb.Uint()
	}
}

// setOps drives sets of one type by reflection, next to plain maps.
func setOps(c *h.Ctx, r *rand.Rand, typ string, elem func(int) any, mk func([]any) any, keySet func(any) any) {
	type pair struct {
		set   reflect.Value
		model map[any]bool
	}
	var hist []string
	pickE := func() any { return elem(r.Intn(14)) }
	pickN := func(max int) (out []any) {
		for n := r.Intn(max + 1); n > 0; n-- {
			out = append(out, pickE())
		}
		return
	}
	var ps []pair
	newSet := func(xs []any) {
		m := map[any]bool{}
		for _, x := range xs {
			m[x] = true
		}
		ps = append(ps, pair{reflect.ValueOf(mk(xs)), m})
	}
	var bad string
	listOf := func(m map[any]bool) []any {
		var out []any
		for k := range m {
			out = append(out, k)
		}
		sort.Slice(out, func(a, b int) bool { return lessAny(out[a], out[b]) })
		return out
	}
	toAny := func(v reflect.Value) []any {
		var out []any
		for k := 0; k < v.Len(); k++ {
			out = append(out, v.Index(k).Interface())
		}
		return out
	}
	call := func(p pair, name string, args ...any) []reflect.Value {
		m := p.set.MethodByName(name)
		if !m.IsValid() {
			return nil
		}
		var in []reflect.Value
		for _, a := range args {
			if v, ok := a.(reflect.Value); ok {
				in = append(in, v)
			} else {
				in = append(in, reflect.ValueOf(a))
			}
		}
		return m.Call(in)
	}
	checkAll := func() {
		for k, p := range ps {
			res := call(p, "List")
			got := toAny(res[0])
			if fmt.Sprint(got) != fmt.Sprint(listOf(p.model)) {
				bad = fmt.Sprintf("set %d lists %v, must be %v", k, got, listOf(p.model))
				return
			}
			if n := int(call(p, "Len")[0].Int()); n != len(p.model) {
				bad = fmt.Sprintf("set %d has length %d, must be %d", k, n, len(p.model))
				return
			}
			un := toAny(call(p, "UnsortedList")[0])
			sort.Slice(un, func(a, b int) bool { return lessAny(un[a], un[b]) })
			if fmt.Sprint(un) != fmt.Sprint(listOf(p.model)) {
				bad = fmt.Sprintf("set %d lists unsorted %v, must be %v", k, un, listOf(p.model))
				return
			}
		}
	}
	wantBool := func(what string, got []reflect.Value, want bool) {
		if got[0].Bool() != want && bad == "" {
			bad = fmt.Sprintf("%s is %v, must be %v", what, got[0].Bool(), want)
		}
	}
	n := 1 + r.Intn(12)
	c.Call("set operations", func() {
		newSet(pickN(6))
		newSet(pickN(6))
		if r.Intn(2) == 0 {
			m := map[any]bool{}
			mt := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(elem(0)), reflect.TypeOf(0)))
			for _, x := range pickN(6) {
				m[x] = true
				mt.SetMapIndex(reflect.ValueOf(x), reflect.ValueOf(1))
			}
			ps = append(ps, pair{reflect.ValueOf(keySet(mt.Interface())), m})
		}
		if r.Intn(4) == 0 { // a set nobody made
			hist = append(hist, fmt.Sprintf("%d is nil", len(ps)))
			ps = append(ps, pair{reflect.Zero(ps[0].set.Type()), map[any]bool{}})
		}
		for k := 0; k < n && bad == ""; k++ {
			a, b := r.Intn(len(ps)), r.Intn(len(ps))
			pa, pb := ps[a], ps[b]
			res := map[any]bool{}
			switch op := r.Intn(12); op {
			case 0:
				if pa.set.IsNil() {
					continue
				}
				xs := pickN(3)
				hist = append(hist, fmt.Sprintf("insert %v into %d", xs, a))
				call(pa, "Insert", xs...)
				for _, x := range xs {
					pa.model[x] = true
				}
			case 1:
				xs := pickN(3)
				hist = append(hist, fmt.Sprintf("delete %v from %d", xs, a))
				call(pa, "Delete", xs...)
				for _, x := range xs {
					delete(pa.model, x)
				}
			case 2:
				x := pickE()
				hist = append(hist, fmt.Sprintf("has %v in %d", x, a))
				wantBool("Has", call(pa, "Has", x), pa.model[x])
			case 3, 4:
				xs := pickN(4)
				any1, all := false, true
				for _, x := range xs {
					any1 = any1 || pa.model[x]
					all = all && pa.model[x]
				}
				hist = append(hist, fmt.Sprintf("has all/any %v in %d", xs, a))
				if op == 3 {
					wantBool("HasAll", call(pa, "HasAll", xs...), all)
				} else if r := call(pa, "HasAny", xs...); r != nil {
					wantBool("HasAny", r, any1)
				}
			case 5, 6, 7:
				name := []string{"Difference", "Union", "Intersection"}[op-5]
				hist = append(hist, fmt.Sprintf("%s %d %d", name, a, b))
				for x := range pa.model {
					if op == 6 || (op == 5) != pb.model[x] {
						res[x] = true
					}
				}
				if op == 6 {
					for x := range pb.model {
						res[x] = true
					}
				}
				ps = append(ps, pair{call(pa, name, pb.set)[0], res})
			case 8, 9:
				sup := true
				for x := range pb.model {
					sup = sup && pa.model[x]
				}
				hist = append(hist, fmt.Sprintf("superset/equal %d %d", a, b))
				if op == 8 {
					wantBool("IsSuperset", call(pa, "IsSuperset", pb.set), sup)
				} else {
					wantBool("Equal", call(pa, "Equal", pb.set), sup && len(pa.model) == len(pb.model))
				}
			case 10:
				hist = append(hist, fmt.Sprintf("pop from %d", a))
				got := call(pa, "PopAny")
				x, ok := got[0].Interface(), got[1].Bool()
				if ok != (len(pa.model) > 0) || ok && !pa.model[x] {
					bad = fmt.Sprintf("PopAny gave %v, %v from %v", x, ok, listOf(pa.model))
				}
				delete(pa.model, x)
			case 11:
				newSet(pickN(5))
				hist = append(hist, "new set")
			}
			if bad == "" {
				checkAll()
			}
		}
	})
	desc := typ + ": " + strings.Join(hist, "; ")
	if bad != "" {
		c.Violation("wrong-set-"+typ, "%s\n%s", desc, bad)
		return
	}
	c.Count("set_operations", n)
	c.Eval(desc, n >= 3)
}

func init() { h.Register(h.Check{ID: "C28", Fn: c28}) }
