package replay

import (
	"fmt"
	"testing"
)

func TestVerifC11(t *testing.T) {
	v := vStart(t)
	keys := []string{"", "a", "b", "c", "d", "e", "f", "g", "1", "key", "\x00", "é"}
	for v.more(30000) {
		capacity := v.num(5) - 1
		if v.r.Intn(10) == 0 {
			capacity = v.num(40)
		}
		ks := keys
		if capacity > 8 {
			for i := 0; i < capacity+5; i++ {
				ks = append(ks[:len(ks):len(ks)], fmt.Sprint("k", i))
			}
		}
		n := 1 + v.num(12)
		if capacity > 8 {
			n = 3 * capacity
		}
		var lru *LRUCache[int]
		log := fmt.Sprintf("NewLRUCache(%d)", capacity)
		v.kase("%s", log)
		v.try(func() { lru = NewLRUCache[int](capacity) })
		var order []string // most recent first
		vals := map[string]int{}
		touch := func(k string) {
			for i, x := range order {
				if x == k {
					order = append(order[:i:i], order[i+1:]...)
					break
				}
			}
			order = append([]string{k}, order...)
		}
		for i := 0; i < n; i++ {
			k := ks[v.r.Intn(len(ks))]
			if len(ks) > 6 && v.r.Intn(2) == 0 {
				k = ks[v.r.Intn(6)]
			}
			if v.r.Intn(2) == 0 {
				log += fmt.Sprintf("; Put(%q,%d)", k, i)
				v.kase("%s", log)
				v.try(func() { lru.Put(k, i) })
				if capacity <= 0 {
					continue
				}
				if _, ok := vals[k]; !ok && len(order) >= capacity {
					old := order[len(order)-1]
					order = order[:len(order)-1]
					delete(vals, old)
				}
				vals[k] = i
				touch(k)
			} else {
				log += fmt.Sprintf("; Get(%q)", k)
				v.kase("%s", log)
				v.try(func() {
					p, ok := lru.Get(k)
					w, has := vals[k]
					if ok != has {
						v.fail("found %v, want %v", ok, has)
					}
					if has && *p != w {
						v.fail("got %d, want %d", *p, w)
					}
					if !has && p != nil {
						v.fail("a miss returns a value")
					}
				})
				if _, has := vals[k]; has {
					touch(k)
				}
			}
			if lru.pages.Len() != len(order) || len(lru.cache) != len(order) {
				v.fail("holds %d/%d entries, want %d", lru.pages.Len(), len(lru.cache), len(order))
			}
		}
		// drain in order of recency: fill with new keys and see who leaves
		for i := 0; capacity > 0 && len(order) > 0 && i < 2*capacity; i++ {
			k := fmt.Sprint("fresh", i)
			log += fmt.Sprintf("; Put(%q,%d)", k, i)
			v.kase("%s", log)
			v.try(func() { lru.Put(k, i) })
			if len(order) >= capacity {
				delete(vals, order[len(order)-1])
				order = order[:len(order)-1]
			}
			vals[k] = i
			touch(k)
			for _, x := range append(append([]string{}, order...), ks...) {
				e, ok := lru.cache[x]
				if _, has := vals[x]; has != ok {
					v.fail("%q held: %v, want %v", x, ok, has)
				}
				if ok && e.Value.(*Page[int]).value != vals[x] {
					v.fail("%q has value %d, want %d", x, e.Value.(*Page[int]).value, vals[x])
				}
			}
		}
	}
	v.ok()
}
