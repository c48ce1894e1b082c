package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/tsdb/index"

	"sigs.k8s.io/instrumentation-tools/promq/prom"

	"verif/harness/h"
)

// labelIndex is what the storage's index of labels offers.
type labelIndex interface {
	Add(uint64, labels.Labels)
	Delete(map[uint64]struct{})
	EnsureOrder()
	Get(name, value string) index.Postings
	UnsafeGet(name, value string) index.Postings
	All() index.Postings
	SortedKeys() []labels.Label
	IterNames(func(string))
	IterValues(string, func(string))
}

func newLabelIndex(ordered bool) labelIndex {
	if ordered {
		return prom.NewmemPostings()
	}
	return prom.NewUnorderedmemPostings()
}

func idsOf(p index.Postings) (ids []uint64) {
	for p.Next() {
		ids = append(ids, p.At())
	}
	return ids
}

func sameIDs(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ascending(ids []uint64) bool {
	for i := 1; i < len(ids); i++ {
		if ids[i] <= ids[i-1] {
			return false
		}
	}
	return true
}

func c34(c *h.Ctx) {
	c.Rule("random sequences of additions (ids in order, reversed or shuffled, label sets sharing names and values) and deletions (of single ids, many, all, unknown ones) on an ordered label index and on one made unordered and put in order later, everything it lists compared with a plain map after each step; and, race detector on, readers working while a writer adds ascending ids and deletes: a list read must be ascending, hold every id that was there throughout and none that wasn't there at any time, and stay as it was. Non-trivial: ids were added out of order or deleted, or readers and writer overlapped")
	type set = map[uint64]labels.Labels
	genSet := func(r *rand.Rand, card int) labels.Labels {
		m := map[string]string{}
		for n := 1 + r.Intn(4); n > 0; n-- {
			m[lnAlphabet[r.Intn(len(lnAlphabet))]] = lvAlphabet[r.Intn(card)]
		}
		if r.Intn(2) == 0 {
			m[labels.MetricName] = pick(r, mnAlphabet)
		}
		for k, v := range m {
			if v == "" { // the same as no label
				delete(m, k)
			}
		}
		return labels.FromMap(m)
	}
	expected := func(has set) (by map[labels.Label][]uint64, all []uint64) {
		by = map[labels.Label][]uint64{}
		for id := range has {
			all = append(all, id)
		}
		sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
		for _, id := range all {
			for _, l := range has[id] {
				by[l] = append(by[l], id)
			}
		}
		return by, all
	}
	differ := func(p labelIndex, has set, r *rand.Rand) string {
		by, all := expected(has)
		if got := idsOf(p.All()); !sameIDs(got, all) {
			return fmt.Sprintf("all ids are %v, must be %v", got, all)
		}
		var keys []labels.Label
		names := map[string]map[string]bool{}
		for l := range by {
			keys = append(keys, l)
			if names[l.Name] == nil {
				names[l.Name] = map[string]bool{}
			}
			names[l.Name][l.Value] = true
		}
		if len(all) > 0 {
			n, v := prom.AllPostingsKey()
			keys = append(keys, labels.Label{Name: n, Value: v})
			names[n] = map[string]bool{v: true}
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i].Name != keys[j].Name {
				return keys[i].Name < keys[j].Name
			}
			return keys[i].Value < keys[j].Value
		})
		if got := p.SortedKeys(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", keys) && len(got)+len(keys) > 0 {
			return fmt.Sprintf("keys are %q, must be %q", got, keys)
		}
		var gn []string
		p.IterNames(func(n string) { gn = append(gn, n) })
		sort.Strings(gn)
		var wn []string
		for n := range names {
			wn = append(wn, n)
		}
		sort.Strings(wn)
		if strings.Join(gn, "\x00") != strings.Join(wn, "\x00") {
			return fmt.Sprintf("names are %q, must be %q", gn, wn)
		}
		for _, n := range append(wn, "not a name") {
			var gv []string
			unsafe := map[string][]uint64{}
			p.IterValues(n, func(v string) {
				gv = append(gv, v)
				unsafe[v] = idsOf(p.UnsafeGet(n, v))
			})
			sort.Strings(gv)
			wv := keysOf(names[n])
			if !sameStrings(gv, wv) {
				return fmt.Sprintf("values of %q are %q, must be %q", n, gv, wv)
			}
			for _, v := range append(gv, "not a value") {
				w := by[labels.Label{Name: n, Value: v}]
				if an, av := prom.AllPostingsKey(); n == an && v == av {
					w = all
				}
				if got := idsOf(p.Get(n, v)); !sameIDs(got, w) {
					return fmt.Sprintf("%q=%q lists %v, must be %v", n, v, got, w)
				}
				if got, ok := unsafe[v]; ok && !sameIDs(got, w) {
					return fmt.Sprintf("%q=%q lists %v while values are listed, must be %v", n, v, got, w)
				}
			}
		}
		return ""
	}
	c.Cases("steps", c.N(4000, 60000), func(i int, r *rand.Rand) {
		ordered := r.Intn(4) != 0
		p := newLabelIndex(ordered)
		sorted := ordered
		has := set{}
		card := 1 + r.Intn(len(lvAlphabet))
		temper := r.Intn(3)
		base := uint64(r.Intn(3)) << uint(r.Intn(60))
		pool := r.Perm(200)
		next := 0
		newID := func() uint64 {
			next++
			switch temper {
			case 0:
				return base + uint64(next)
			case 1:
				return base + uint64(300-next)
			}
			return base + uint64(pool[next%200])
		}
		var script []string
		disorder := false
		var max uint64
		steps := 2 + r.Intn(30)
		for s := 0; s < steps && next < 190; s++ {
			switch k := r.Intn(10); {
			case k < 6 || len(has) == 0:
				for n := 1 + r.Intn(4); n > 0; n-- {
					id, ls := newID(), genSet(r, card)
					if _, ok := has[id]; ok {
						continue
					}
					disorder = disorder || id < max
					if id > max {
						max = id
					}
					has[id] = ls
					script = append(script, fmt.Sprintf("add %d %s", id, ls))
					c.Desc("%s", strings.Join(script, "; "))
					p.Add(id, ls)
				}
			case k < 9:
				gone := map[uint64]struct{}{}
				share := 1 + r.Intn(4)
				for id := range has {
					gone[id] = struct{}{}
				}
				ids := make([]uint64, 0, len(gone))
				for id := range gone {
					ids = append(ids, id)
				}
				sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
				for _, id := range ids {
					if share > 1 && r.Intn(share) > 0 {
						delete(gone, id)
					}
				}
				if r.Intn(4) == 0 {
					gone[base+1000+uint64(r.Intn(5))] = struct{}{}
				}
				script = append(script, fmt.Sprintf("delete %v", gone))
				c.Desc("%s", strings.Join(script, "; "))
				p.Delete(gone)
				for id := range gone {
					if _, ok := has[id]; ok {
						disorder = true
						delete(has, id)
					}
				}
			default:
				script = append(script, "order")
				c.Desc("%s", strings.Join(script, "; "))
				p.EnsureOrder()
				sorted = true
			}
			if !sorted && s == steps-1 {
				script = append(script, "order")
				c.Desc("%s", strings.Join(script, "; "))
				p.EnsureOrder()
				sorted = true
			}
			if sorted {
				if d := differ(p, has, r); d != "" {
					c.Violation("index", "%s\nordered at first: %v; %s", d, ordered, strings.Join(script, "; "))
					return
				}
				c.Count("states_compared", 1)
			}
		}
		c.Eval(strings.Join(script, ";"), disorder)
		if c.WantSample() && disorder && len(script) < 8 {
			c.Sample("%s", strings.Join(script, "; "))
		}
	})
	c.Cases("concurrent", c.N(150, 3000), func(i int, r *rand.Rand) {
		p := newLabelIndex(true)
		// id k has the labels a=k%3, b=x; those that are multiples of 5 are
		// deleted some time after
		n := 60 + r.Intn(200)
		var added, doomed, deleted atomic.Int64 // ids below are added / may be going / are gone
		lag := int64(1 + r.Intn(30))
		var over atomic.Bool
		var mu sync.Mutex
		bad := ""
		say := func(f string, a ...any) {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
		}
		var starting atomic.Int64
		var overlaps atomic.Int64
		c.Desc("%d ids added and every fifth deleted while read", n)
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !over.Load() {
					mod := rr.Intn(4)
					before, goneBefore := added.Load(), deleted.Load()
					var pl index.Postings
					switch {
					case mod < 3:
						pl = p.Get("a", fmt.Sprint(mod))
					case rr.Intn(2) == 0:
						pl = p.All()
					default:
						pl = p.Get("b", "x")
					}
					after, goingAfter := starting.Load(), doomed.Load()
					if after > before {
						overlaps.Add(1)
					}
					ids := idsOf(pl)
					if !ascending(ids) {
						say("ids %v aren't in order", ids)
						return
					}
					in := map[uint64]bool{}
					for _, id := range ids {
						in[id] = true
						if mod < 3 && id%3 != uint64(mod) || int64(id) >= after {
							say("id %d listed for a=%d with ids up to %d added", id, mod, after)
							return
						}
						if id%5 == 0 && int64(id) < goneBefore {
							say("id %d listed though it was deleted", id)
							return
						}
					}
					for id := int64(0); id < before; id++ {
						if (mod == 3 || id%3 == int64(mod)) && !(id%5 == 0 && id < goingAfter) && !in[uint64(id)] {
							say("id %d (of a=%d) isn't listed, though it was added; listed %v", id, mod, ids)
							return
						}
					}
					switch rr.Intn(4) {
					case 0:
						keys := p.SortedKeys()
						for k := 1; k < len(keys); k++ {
							if labels.Compare(labels.Labels{keys[k-1]}, labels.Labels{keys[k]}) >= 0 {
								say("keys %q aren't in order", keys)
							}
						}
					case 1:
						p.IterNames(func(string) {})
					case 2:
						p.IterValues("a", func(v string) {
							if !ascending(idsOf(p.UnsafeGet("a", v))) {
								say("ids of a=%s aren't in order", v)
							}
						})
					case 3:
						p.EnsureOrder()
					}
				}
			}()
		}
		go func() {
			defer over.Store(true)
			for id := int64(0); id < int64(n); id++ {
				starting.Store(id + 1)
				p.Add(uint64(id), labels.FromStrings("a", fmt.Sprint(id%3), "b", "x"))
				added.Store(id + 1)
				if upto := id - lag; upto > 0 && upto%7 == 0 {
					gone := map[uint64]struct{}{}
					for k := deleted.Load(); k < upto; k++ {
						if k%5 == 0 {
							gone[uint64(k)] = struct{}{}
						}
					}
					doomed.Store(upto)
					p.Delete(gone)
					deleted.Store(upto)
				}
			}
		}()
		wg.Wait()
		if bad != "" {
			c.Violation("index-concurrent", "%s", bad)
			return
		}
		c.Count("reads_overlapping_additions", int(overlaps.Load()))
		c.Eval(fmt.Sprint("conc", i), overlaps.Load() > 0)
	})
}

func init() { h.Register(h.Check{ID: "C34", Fn: c34, Race: true}) }
