package replay

import (
	"fmt"
	"testing"
)

func TestVerifC13(t *testing.T) {
	v := vStart(t)
	pool := []string{"", "a", "b", "abc", "the", "1", "é", "\x00", "\xff\xfe", "key with spaces"}
	for i := 0; i < 400; i++ {
		pool = append(pool, fmt.Sprint("key", i*i))
	}
	for v.more(3000) {
		n := 1 + v.num(6)
		if v.r.Intn(8) == 0 {
			n = 1 + v.num(120)
		}
		var s *Shard[int]
		log := fmt.Sprintf("NewShardMap(%d)", n)
		v.kase("%s", log)
		v.try(func() { s = NewShardMap[int](n) })
		want := map[string]int{}
		frag := map[string]*LocalMap[int]{}
		for i := 0; i < 30; i++ {
			k := v.str(pool)
			v.try(func() {
				v.kase("%s; Get(%q)", log, k)
				m, ok := s.Get(k)
				if !ok || m == nil {
					v.fail("no fragment")
				}
				if f, seen := frag[k]; seen && f != m {
					v.fail("the key moved to another fragment")
				}
				frag[k] = m
				if v.r.Intn(3) > 0 {
					log += fmt.Sprintf("; Get(%q).Set(%d)", k, i)
					v.kase("%s", log)
					m.Set(k, i)
					want[k] = i
				}
			})
			for x, f := range frag {
				v.try(func() {
					if m, ok := s.Get(x); !ok || m != f {
						v.fail("key %q moved to another fragment", x)
					}
					p, ok := f.Get(x)
					w, has := want[x]
					if ok != has || has && (p == nil || *p != w) || !has && p != nil {
						v.fail("key %q: got %v %v, want %v %v", x, p, ok, w, has)
					}
					d := f.GetData()
					if q, ok := d[x]; ok != has || has && *q != w {
						v.fail("key %q in the data: %v", x, ok)
					}
				})
			}
		}
		for i := 0; i < 50; i++ {
			k := fmt.Sprint(v.r.Int63())
			v.try(func() {
				v.kase("%s; Get(%q)", log, k)
				if m, ok := s.Get(k); !ok || m == nil {
					v.fail("no fragment")
				} else if p, ok := m.Get(k); ok || p != nil {
					v.fail("a key never written is found")
				}
			})
		}
	}
	v.ok()
}
