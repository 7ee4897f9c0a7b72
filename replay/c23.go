package replay

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
)

var dPieces = []string{"a", "A", "b", ".", "..", "/", "\\", "%", "%2F", "%2E", "%temp", "_temp", ".tmp", "_old", "é", " ", "\x00", "index", "..", "../", "\n", "%25", "2F", "+", "%20"}

func dId(v *vRun) string {
	s := ""
	for n := v.r.Intn(4); n > 0; n-- {
		s += v.str(dPieces)
	}
	return s
}

// TestVerifC23 saves documents with all kinds of ids, each in its turn, and
// loads every one of them back.
func TestVerifC23(t *testing.T) {
	v := vStart(t)
	for round := 0; v.more(400); round++ {
		base := filepath.Join(os.TempDir(), fmt.Sprint("ids-", round), "a", "b", "c", "d")
		root := filepath.Join(base, "store")
		os.MkdirAll(root, 0o755)
		ids := []string{}
		seen := map[string]bool{}
		for n := 2 + v.r.Intn(6); n > 0; n-- {
			id := dId(v)
			if len(ids) > 0 && v.r.Intn(3) == 0 {
				id = ids[v.r.Intn(len(ids))] + v.pick("%temp", "_temp", ".temp", ".tmp", "_tmp", "_old", "_new", ".bak", "/", "%", ".")
			}
			if !seen[id] {
				seen[id] = true
				ids = append(ids, id)
			}
		}
		v.kase("documents %q saved in this order", ids)
		cur := fmt.Sprintf("documents %q saved in this order", ids)
		inBubble(v, func() {
			d := NewDiskIO(root)
			outside := filepath.Join(root, "docs", "other")
			os.MkdirAll(outside, 0o755)
			os.MkdirAll(filepath.Join(root, "docs", "metrics"), 0o755)
			os.WriteFile(filepath.Join(outside, "kept"), []byte("kept"), 0o644)
			ch := make(chan DocumentFieldTransferData, 4)
			var st Storage
			if round%2 == 0 {
				go d.SaveDocumentFieldOnDisk(ch)
			} else {
				s, err := NewDiskStore(root, 50)
				if err != nil {
					v.fail("opening the store: %v", err)
				}
				st = s
			}
			saved := map[string]map[string]model.Field{}
			for _, id := range ids {
				if g, ok := d.LoadFieldDocumentOnHD(id); ok {
					v.fail("document %q, not yet saved, is found: %s", id, cFields(g))
				}
				m := map[string]model.Field{"f": {Name: "f", Length: len(saved), TF: map[string]int{id: 1}}}
				saved[id] = m
				before := wFiles(base)
				v.what.Store(cur + fmt.Sprintf("; saving %q", id))
				if st == nil {
					ch <- DocumentFieldTransferData{DocumentId: id, Field: m}
				} else {
					st.SaveOrUpdate(id, m["f"])
				}
				synctest.Wait()
				time.Sleep(10 * time.Second)
				synctest.Wait()
				for p, b := range wFiles(base) {
					a, ok := before[p]
					if st != nil && strings.HasPrefix(p, filepath.Join(root, "f")+"/") {
						delete(before, p)
						continue // the index and totals of the field
					}
					if filepath.Dir(p) != filepath.Join(root, "docs", "metrics") {
						if !ok || a != b {
							v.fail("the file %s is written", strings.TrimPrefix(p, base))
						}
					}
					delete(before, p)
				}
				for p := range before {
					if st != nil && strings.HasPrefix(p, filepath.Join(root, "f")+"/") {
						continue
					}
					v.fail("the file %s is removed", strings.TrimPrefix(p, base))
				}
				for i, m := range saved {
					g, ok := d.LoadFieldDocumentOnHD(i)
					if !ok || cFields(g) != cFields(m) {
						v.fail("after saving %q, document %q is %s %v, not %s", id, i, cFields(g), ok, cFields(m))
					}
				}
			}
		})
		os.RemoveAll(filepath.Join(os.TempDir(), fmt.Sprint("ids-", round)))
	}
	v.ok()
}
