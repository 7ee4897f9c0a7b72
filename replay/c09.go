package replay

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
)

// A process that reads the file while it is replaced sees what a crash at that
// moment would leave behind.
func TestVerifC09(t *testing.T) {
	v := vStart(t)
	names := []string{"metrics", "index", "1", "doc", "a.b", "x_y", "é", "1_temp", "1_old", "nfterm"}
	for round := 0; v.more(400); round++ {
		dir := filepath.Join(os.TempDir(), fmt.Sprint("c09-", round))
		if os.MkdirAll(dir, 0o755) != nil {
			v.t.Fatal("scratch")
		}
		name := names[v.r.Intn(len(names))]
		path := filepath.Join(dir, name)
		content := func(k int) []byte {
			n := v.r.Intn(64)
			if v.r.Intn(2) == 0 {
				n = 1<<16 + v.r.Intn(1<<20)
			}
			return bytes.Repeat([]byte{byte(k + 1)}, n)
		}
		keep := filepath.Join(dir, "keep")
		os.WriteFile(keep, []byte("kept"), 0o644)
		// helper files of an attempt that was stopped
		for _, x := range []string{"%temp", "_temp", ".tmp", ".temp", "_tmp", "_new", ".new", "_old", ".bak"} {
			if v.r.Intn(2) == 0 {
				os.WriteFile(path+x, bytes.Repeat([]byte("left"), v.r.Intn(100)), 0o644)
			}
		}
		left, _ := os.ReadDir(dir)
		var prev []byte
		had := v.r.Intn(3) > 0
		if had {
			prev = content(0)
			os.WriteFile(path, prev, 0o644)
		}
		for k := 1; k <= 4; k++ {
			next := content(k)
			v.kase("SecureSaveFile(dir, %q, %d bytes of %d), replacing: %v (%d bytes)", name, len(next), k+1, had, len(prev))
			var stop, bad atomic.Value
			done := make(chan bool)
			go func() {
				defer close(done)
				for stop.Load() == nil {
					b, err := os.ReadFile(path)
					switch {
					case err != nil && had:
						bad.Store("the file is missing at some point: " + err.Error())
						return
					case err == nil && !(had && bytes.Equal(b, prev)) && !bytes.Equal(b, next):
						bad.Store(fmt.Sprintf("the file holds %d bytes of neither version at some point", len(b)))
						return
					}
				}
			}()
			var err error
			v.try(func() { err = SecureSaveFile(dir, name, next) })
			stop.Store(true)
			<-done
			if b := bad.Load(); b != nil {
				v.fail("%v", b)
			}
			if err != nil {
				v.fail("error %v", err)
			}
			if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, next) {
				v.fail("the file does not hold the new content (%d bytes, %v)", len(b), err)
			}
			if b, err := os.ReadFile(keep); err != nil || string(b) != "kept" {
				v.fail("another file changed")
			}
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				old := e.Name() == name
				for _, l := range left {
					old = old || l.Name() == e.Name()
				}
				if !old {
					v.fail("file %s is left behind", e.Name())
				}
			}
			prev, had = next, true
		}
		os.RemoveAll(dir)
	}
	v.ok()
}
