package replay

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

// inBubble runs f with a fake clock; the goroutines f starts are left blocked.
func inBubble(v *vRun, f func()) {
	done, never := make(chan bool), make(chan bool)
	go func() {
		synctest.Test(v.t, func(t *testing.T) {
			func() {
				defer close(done)
				v.try(f)
			}()
			<-never
		})
	}()
	<-done
	if v.t.Failed() {
		os.Exit(3)
	}
}

func wRead(v *vRun, path string) ([]byte, bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, false
	}
	return file.DecompressData(b), true
}

func wCounts(v *vRun, root, f string) map[string]int {
	if b, ok := wRead(v, filepath.Join(root, f, "nfterm")); ok {
		return DeserializeNumberFieldTerm(b)
	}
	return nil
}

// wPosts reads the fragments of a field, by file.
func wPosts(v *vRun, root, f string) map[string]map[string]map[string]bool {
	r := map[string]map[string]map[string]bool{}
	es, _ := os.ReadDir(filepath.Join(root, f, "temp"))
	for _, e := range es {
		b, ok := wRead(v, filepath.Join(root, f, "temp", e.Name()))
		if ok {
			r[e.Name()] = DeserializeIndex(b)
		}
	}
	return r
}

// wFiles is the content of every file under root except helper files.
func wFiles(root string) map[string]string {
	r := map[string]string{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && !strings.Contains(filepath.Base(p), "%temp") {
			b, _ := os.ReadFile(p)
			r[p] = string(b)
		}
		return nil
	})
	return r
}

// wOthers checks that only the given files changed.
func wOthers(v *vRun, before, after map[string]string, may func(p string) bool) {
	for p, b := range before {
		if a, ok := after[p]; !may(p) && (!ok || a != b) {
			v.fail("the flush changes or removes %s", p)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && !may(p) {
			v.fail("the flush makes the file %s", p)
		}
	}
}

func wField(v *vRun, name string) model.Field {
	f := model.Field{Name: name, Length: lNum(v), TF: map[string]int{}}
	for j := v.r.Intn(4); j > 0; j-- {
		f.TF[v.str(lTerms)] = lNum(v)
	}
	return f
}

var wIds = []string{"1", "2", "10", "a/b", "../x", "é", "%", ".", "doc 7"}
var wNames = []string{"title", "body", "a.b", "é", "Title", "x y"}

// TestVerifC06 sends random messages to each writer, lets its ticker fire
// under a fake clock, and compares the files with what was sent.
func TestVerifC06(t *testing.T) {
	v := vStart(t)
	for round := 0; v.more(400); round++ {
		s := lMake(v, round)
		d := NewDiskIO(s.root)
		log := []string{fmt.Sprintf("store %s", s)}
		v.kase("%s", log[0])
		note := func(format string, args ...interface{}) {
			log = append(log, fmt.Sprintf(format, args...))
			if len(log) > 30 {
				log = append(log[:1], log[len(log)-25:]...)
			}
			// (not kase: the clock is not the real one here)
			s := strings.Join(log, "; ")
			v.what.Store(s)
			if v.cur != "" {
				os.WriteFile(v.cur, []byte(s), 0o644)
			}
		}
		which := round % 4
		inBubble(v, func() {
			switch which {
			case 0:
				ch := make(chan FieldSizeLengthTransferData, 16)
				go d.SaveFieldSizeLengthOnDisc(ch)
				for flush := 0; flush < 4; flush++ {
					before := wFiles(s.root)
					told := map[string]FieldSizeLengthTransferData{}
					for n := v.r.Intn(8); n > 0; n-- {
						m := FieldSizeLengthTransferData{FieldName: v.pick(wNames...), Size: lNum(v), Length: lNum(v)}
						told[m.FieldName] = m
						note("totals %+v", m)
						ch <- m
					}
					synctest.Wait()
					note("flush")
					time.Sleep(5 * time.Second)
					synctest.Wait()
					for f, m := range told {
						b, ok := wRead(v, filepath.Join(s.root, f, "metrics"))
						if !ok {
							v.fail("after the flush field %q has no totals on disk", f)
						}
						if n, a, l := DeserializeFieldSizeLength(b); n != f || int(a) != m.Size || int(l) != m.Length {
							v.fail("after the flush the totals of %q are %q %d %d", f, n, a, l)
						}
					}
					wOthers(v, before, wFiles(s.root), func(p string) bool {
						for f := range told {
							if p == filepath.Join(s.root, f, "metrics") {
								return true
							}
						}
						return false
					})
				}
			case 1:
				ch := make(chan NumberFieldTermTransferData, 16)
				go d.SaveNumberFieldTermOnDisk(ch)
				for flush := 0; flush < 4; flush++ {
					before := wFiles(s.root)
					told := map[string]map[string]int{}
					for n := v.r.Intn(10); n > 0; n-- {
						m := NumberFieldTermTransferData{FieldName: v.pick(wNames...), Term: v.str(lTerms), Size: lNum(v)}
						if told[m.FieldName] == nil {
							told[m.FieldName] = map[string]int{}
							for t, n := range wCounts(v, s.root, m.FieldName) {
								told[m.FieldName][t] = n
							}
						}
						told[m.FieldName][m.Term] = m.Size
						note("count %+v", m)
						ch <- m
					}
					synctest.Wait()
					note("flush")
					time.Sleep(7 * time.Second)
					synctest.Wait()
					for f, m := range told {
						if g := wCounts(v, s.root, f); fmt.Sprint(g) != fmt.Sprint(m) {
							v.fail("after the flush the counts of %q are %q, not %q", f, fmt.Sprint(g), fmt.Sprint(m))
						}
					}
					wOthers(v, before, wFiles(s.root), func(p string) bool {
						for f := range told {
							if p == filepath.Join(s.root, f, "nfterm") {
								return true
							}
						}
						return false
					})
				}
			case 2:
				ch := make(chan DocumentFieldTransferData, 16)
				go d.SaveDocumentFieldOnDisk(ch)
				for flush := 0; flush < 4; flush++ {
					before := wFiles(s.root)
					told := map[string]map[string]model.Field{}
					for n := v.r.Intn(8); n > 0; n-- {
						m := DocumentFieldTransferData{DocumentId: v.pick(wIds...), Field: map[string]model.Field{}}
						for k := v.r.Intn(3); k > 0; k-- {
							f := wField(v, v.pick(wNames...))
							m.Field[f.Name] = f
						}
						if told[m.DocumentId] == nil {
							told[m.DocumentId] = map[string]model.Field{}
							g, _ := d.LoadFieldDocumentOnHD(m.DocumentId)
							for n, f := range g {
								told[m.DocumentId][n] = f
							}
						}
						for n, f := range m.Field {
							told[m.DocumentId][n] = f
						}
						note("document %q %s", m.DocumentId, cFields(m.Field))
						ch <- m
					}
					synctest.Wait()
					note("flush")
					time.Sleep(10 * time.Second)
					synctest.Wait()
					for id, m := range told {
						g, ok := d.LoadFieldDocumentOnHD(id)
						if !ok || cFields(g) != cFields(m) {
							v.fail("after the flush document %q is %s %v, not %s", id, cFields(g), ok, cFields(m))
						}
					}
					wOthers(v, before, wFiles(s.root), func(p string) bool {
						for id := range told {
							if p == filepath.Join(s.root, "docs", "metrics", documentFile(id)) {
								return true
							}
						}
						return false
					})
				}
			default:
				ch := make(chan IndexTransferData, 16)
				go d.SaveIndexOnDisk(ch)
				for flush := 0; flush < 4; flush++ {
					before := wFiles(s.root)
					told := map[string]map[string]map[string]bool{}
					old := map[string]map[string]map[string]map[string]bool{}
					for n := v.r.Intn(12); n > 0; n-- {
						m := IndexTransferData{FieldName: v.pick(wNames...), Term: v.str(lTerms), DocumentId: v.pick(wIds...)}
						f := m.FieldName
						if told[f] == nil {
							told[f] = map[string]map[string]bool{}
							old[f] = wPosts(v, s.root, f)
						}
						if told[f][m.Term] == nil {
							told[f][m.Term] = map[string]bool{}
						}
						told[f][m.Term][m.DocumentId] = true
						note("posting %+v", m)
						ch <- m
					}
					synctest.Wait()
					note("flush")
					time.Sleep(13 * time.Second)
					synctest.Wait()
					for f, m := range told {
						got := map[string]map[string]bool{}
						for n, g := range wPosts(v, s.root, f) {
							if _, ok := old[f][n]; ok {
								continue
							}
							for t, ds := range g {
								if got[t] == nil {
									got[t] = map[string]bool{}
								}
								for d := range ds {
									got[t][d] = true
								}
							}
						}
						if !lSame(got, m) {
							v.fail("the flush writes for %q the postings %q, not %q", f, fmt.Sprint(got), fmt.Sprint(m))
						}
					}
					wOthers(v, before, wFiles(s.root), func(p string) bool {
						for f := range told {
							if filepath.Dir(p) == filepath.Join(s.root, f, "temp") && before[p] == "" {
								return true
							}
						}
						return false
					})
				}
			}
		})
		os.RemoveAll(s.root)
	}
	v.ok()
}
