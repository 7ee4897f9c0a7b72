package replay

import (
	"fmt"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// inBubble runs f with a fake clock; the goroutines f starts are left blocked.
func inBubble(v *vRun, f func()) {
	done, never := make(chan bool), make(chan bool)
	go func() {
		synctest.Test(v.t, func(t *testing.T) {
			func() {
				defer close(done)
				v.try(f)
			}()
			<-never
		})
	}()
	<-done
	if v.t.Failed() {
		os.Exit(3)
	}
}

// TestVerifC14 writes to both kinds of maps and watches what they publish.
func TestVerifC14(t *testing.T) {
	v := vStart(t)
	for round := 0; v.more(6000); round++ {
		keys := []string{"", "a", "b", "c", "é", "\x00"}
		if v.r.Intn(6) == 0 {
			for i := 0; i < 40+v.r.Intn(1200); i++ {
				keys = append(keys, fmt.Sprint("k", i))
			}
		}
		rcu := round%2 == 0
		type step struct {
			key string
			val int
		}
		var steps []step
		for n := v.r.Intn(3 * len(keys)); n > 0; n-- {
			switch v.r.Intn(8) {
			case 0:
				steps = append(steps, step{val: -1}) // wait
			default:
				steps = append(steps, step{keys[v.r.Intn(len(keys))], v.r.Intn(3)})
			}
		}
		steps = append(steps, step{val: -1})
		name := "SyncMap"
		if rcu {
			name = "RCU"
		}
		txt := fmt.Sprint(steps)
		if len(txt) > 600 {
			txt = txt[:600] + "..."
		}
		v.kase("%s with writes (key value) and waits (-1): %s", name, txt)
		inBubble(v, func() {
			var get func(k string) (*int, bool)
			var put func(k string, x int)
			var snap func() map[string]int
			if rcu {
				c := NewCacheRCU[int]()
				get, put = c.Get, c.Put
				snap = func() map[string]int { m, _ := c.data.Load().(map[string]int); return m }
			} else {
				c := NewSyncMap[int]()
				go c.writer()
				get, put = c.Get, c.Put
				snap = func() map[string]int { c.RLock(); defer c.RUnlock(); return c.Data }
			}
			written := map[string]int{}         // every write so far
			public := map[string]map[int]bool{} // values a key may show
			type version struct{ m, was map[string]int }
			var seen []version
			var mu sync.Mutex
			look := func() {
				mu.Lock()
				defer mu.Unlock()
				m := snap()
				c := map[string]int{}
				for k, x := range m {
					c[k] = x
				}
				for _, o := range seen {
					if len(o.m) != len(o.was) {
						v.fail("a version that had %d keys when it was published has %d now", len(o.was), len(o.m))
					}
					for k, x := range o.was {
						if y, ok := o.m[k]; !ok || y != x {
							v.fail("a version published with %q = %d shows %d, %v later", k, x, y, ok)
						}
					}
				}
				if n := len(seen); n == 0 || fmt.Sprintf("%p", seen[n-1].m) != fmt.Sprintf("%p", m) {
					if n > 0 {
						for k := range seen[n-1].was {
							if _, ok := c[k]; !ok {
								v.fail("key %q, published before, is missing from the next version", k)
							}
						}
					}
					seen = append(seen, version{m, c})
				}
			}
			time.Sleep(500 * time.Millisecond)
			for i := range steps {
				if r, ok := get(steps[i].key); steps[i].val >= 0 {
					w, was := written[steps[i].key]
					if ok && (r == nil || !public[steps[i].key][*r]) {
						v.fail("lookup of %q gives %v, which nobody wrote", steps[i].key, r)
					}
					_, _ = w, was
				}
				if steps[i].val >= 0 {
					put(steps[i].key, steps[i].val)
					written[steps[i].key] = steps[i].val
					if public[steps[i].key] == nil {
						public[steps[i].key] = map[int]bool{}
					}
					public[steps[i].key][steps[i].val] = true
					if len(steps) > 900 {
						synctest.Wait()
					}
					if v.r.Intn(5) == 0 {
						look()
					}
					continue
				}
				synctest.Wait()
				look()
				time.Sleep(time.Duration(3100+v.r.Intn(4)*1300) * time.Millisecond)
				synctest.Wait()
				look()
				for k, x := range written {
					if r, ok := get(k); !ok || r == nil || *r != x {
						v.fail("after the publication %q gives %v, %v; the last write was %d", k, deref(r), ok, x)
					}
				}
				if m := snap(); len(m) != len(written) {
					v.fail("the published version has %d keys, %d were written", len(m), len(written))
				}
				if _, ok := get("never"); ok {
					v.fail("a key that was never written is found")
				}
			}
		})
	}
	v.ok()
}

func deref(p *int) interface{} {
	if p == nil {
		return nil
	}
	return *p
}
