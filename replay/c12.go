package replay

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestVerifC12(t *testing.T) {
	v := vStart(t)
	// every operation releases the locks: a second operation must not block
	within := func(what string, f func()) {
		v.kase("%s", what)
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() { recover() }()
			f()
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			v.fail("blocks for ever: a lock was not released")
		}
	}
	for _, c := range []int{0, 1, 2, 5} {
		l := NewLRUCache[int](c)
		for i := 0; i < 60; i++ {
			k := fmt.Sprint("k", i%4)
			w := fmt.Sprintf("LRU(%d) step %d", c, i)
			if i%5 == 3 {
				k = fmt.Sprint("x", i)
			}
			within(w+" Get", func() { l.Get(k) })
			within(w+" Put", func() { l.Put(k, i) })
			within(w+" Get", func() { l.Get(k) })
			within(w+" Lock", func() { l.Lock(); l.Unlock() })
		}
		m := NewLocalMap[int]()
		for i := 0; i < 20; i++ {
			k := fmt.Sprint("k", i%4)
			w := fmt.Sprintf("LocalMap step %d", i)
			within(w+" Get", func() { m.Get(k) })
			within(w+" Set", func() { m.Set(k, i) })
			within(w+" GetData", func() { m.GetData() })
			within(w+" Lock", func() { m.mu.Lock(); m.mu.Unlock() })
		}
	}
	// concurrent use, judged by the race detector
	for v.more(400) {
		c := v.r.Intn(6)
		v.kase("concurrent Get and Put on an LRU cache of capacity %d and a local map (race detector)", c)
		l := NewLRUCache[int](c)
		m := NewLocalMap[int]()
		for i := 0; i < 4; i++ {
			l.Put(fmt.Sprint("k", i), i)
			m.Set(fmt.Sprint("k", i), i)
		}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 30; i++ {
					k := fmt.Sprint("k", (g*7+i*3)%8)
					switch (g + i) % 4 {
					case 0:
						l.Put(k, i)
						m.Get(k)
					case 1:
						l.Get(k)
						m.Set(k, i)
					case 2:
						l.Get(k)
						for range m.GetData() {
						}
					case 3:
						l.Get(k)
						if p, ok := m.Get(k); ok && p == nil {
							panic("nil")
						}
					}
				}
			}(g)
		}
		wg.Wait()
		if l.pages.Len() != len(l.cache) || len(l.cache) > c {
			v.fail("corrupted: %d list entries, %d map entries, capacity %d", l.pages.Len(), len(l.cache), c)
		}
		for k, e := range l.cache {
			if e.Value.(*Page[int]).key != k {
				v.fail("corrupted: entry %q has key %q", k, e.Value.(*Page[int]).key)
			}
		}
	}
	v.ok()
}
