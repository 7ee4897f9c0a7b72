package replay

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync/atomic"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

var lFields = []string{"title", "body", "a.b", "é", "Title", "index", "temp", "metrics", "x y"}
var lTerms = []string{"", "a", "b", "house", "Ω", "a/b"}

func lNum(v *vRun) int {
	if v.r.Intn(3) == 0 {
		return []int{0, 2147483647, -2147483648, -1}[v.r.Intn(4)]
	}
	return v.num(300)
}

func lIndex(v *vRun, max int) map[string]map[string]bool {
	m := map[string]map[string]bool{}
	for n := v.r.Intn(max + 1); n > 0; n-- {
		t := v.str(lTerms)
		m[t] = map[string]bool{}
		for k := v.r.Intn(4); k > 0; k-- {
			m[t][fmt.Sprint("d", v.r.Intn(6))] = true
		}
	}
	return m
}

func lSets(m map[string]*model.Set) string {
	x := map[string]string{}
	for t, s := range m {
		if d := s.GetData(); d != nil {
			x[t] = fmt.Sprint(d)
		}
	}
	return fmt.Sprintf("%q", fmt.Sprint(x))
}

func lPlain(m map[string]map[string]bool) string {
	x := map[string]string{}
	for t, s := range m {
		x[t] = fmt.Sprint(s)
	}
	return fmt.Sprintf("%q", fmt.Sprint(x))
}

func lWrite(v *vRun, path string, data []byte) {
	if os.MkdirAll(filepath.Dir(path), 0o755) != nil || os.WriteFile(path, file.CompressData(data), 0o644) != nil {
		v.t.Fatal("scratch")
	}
}

type lStore struct {
	root    string
	index   map[string]map[string]map[string]bool
	frags   map[string]map[string]map[string]map[string]bool // field, file
	size    map[string]int
	length  map[string]int
	counts  map[string]map[string]int
	docs    map[string]map[string]model.Field
	expect  map[string]map[string]map[string]bool
	fields  map[string]bool
	another string
}

func lMake(v *vRun, round int) *lStore {
	s := &lStore{root: filepath.Join(os.TempDir(), fmt.Sprint("load-", round)), index: map[string]map[string]map[string]bool{},
		frags: map[string]map[string]map[string]map[string]bool{}, size: map[string]int{}, length: map[string]int{},
		counts: map[string]map[string]int{}, docs: map[string]map[string]model.Field{}, expect: map[string]map[string]map[string]bool{}, fields: map[string]bool{}}
	os.MkdirAll(s.root, 0o755)
	for n := v.r.Intn(4); n > 0; n-- {
		f := lFields[v.r.Intn(len(lFields))]
		if s.fields[f] {
			continue
		}
		s.fields[f] = true
		os.MkdirAll(filepath.Join(s.root, f), 0o755)
		e := map[string]map[string]bool{}
		s.expect[f] = e
		add := func(m map[string]map[string]bool) {
			for t, ds := range m {
				if e[t] == nil {
					e[t] = map[string]bool{}
				}
				for d := range ds {
					e[t][d] = true
				}
			}
		}
		if v.r.Intn(4) > 0 {
			m := lIndex(v, 4)
			s.index[f] = m
			add(m)
			lWrite(v, filepath.Join(s.root, f, "index"), SerializeIndex(m))
		}
		s.frags[f] = map[string]map[string]map[string]bool{}
		if v.r.Intn(4) > 0 {
			for k := v.r.Intn(4); k > 0; k-- {
				m := lIndex(v, 3)
				name := fmt.Sprint("part", k)
				s.frags[f][name] = m
				add(m)
				lWrite(v, filepath.Join(s.root, f, "temp", name), SerializeIndex(m))
			}
		}
		if v.r.Intn(3) > 0 {
			a, b := lNum(v), lNum(v)
			s.size[f], s.length[f] = a, b
			lWrite(v, filepath.Join(s.root, f, "metrics"), SerializeFieldSizeLength(f, int32(a), int32(b)))
		}
		if v.r.Intn(3) > 0 {
			m := map[string]int{}
			for k := v.r.Intn(5); k > 0; k-- {
				m[v.str(lTerms)] = lNum(v)
			}
			s.counts[f] = m
			lWrite(v, filepath.Join(s.root, f, "nfterm"), SerializeNumberFieldTerm(m))
		}
	}
	for n := v.r.Intn(3); n > 0; n-- {
		id := fmt.Sprint("doc", v.r.Intn(5))
		m := map[string]model.Field{}
		for k := v.r.Intn(3); k > 0; k-- {
			f := model.Field{Name: v.str(lFields), Length: lNum(v), TF: map[string]int{}}
			for j := v.r.Intn(4); j > 0; j-- {
				f.TF[v.str(lTerms)] = lNum(v)
			}
			m[f.Name] = f
		}
		s.docs[id] = m
		lWrite(v, filepath.Join(s.root, "docs", "metrics", id), SerializeFieldMap(m))
	}
	s.another = filepath.Join(s.root, "notes")
	os.WriteFile(s.another, []byte("kept"), 0o644)
	return s
}

func (s *lStore) String() string {
	return fmt.Sprintf("size %q length %q counts %q index %q fragments %q documents %d", fmt.Sprint(s.size), fmt.Sprint(s.length), fmt.Sprint(s.counts), fmt.Sprint(s.index), fmt.Sprint(s.frags), len(s.docs))
}

func (s *lStore) checkIndex(v *vRun, r map[string]map[string]*model.Set) {
	if len(r) != len(s.fields) {
		v.fail("%d fields are returned, %d directories exist", len(r), len(s.fields))
	}
	for f, e := range s.expect {
		g, ok := r[f]
		if !ok {
			v.fail("field %q is missing from the index", f)
		}
		if lSets(g) != lPlain(e) {
			v.fail("field %q has postings %s, its files hold %s", f, lSets(g), lPlain(e))
		}
	}
}

// checkOpen opens a store on the folder.
func (s *lStore) checkOpen(v *vRun) {
	st, err := NewDiskStore(s.root, 3)
	if err != nil {
		v.fail("the store cannot be opened: %v", err)
	}
	for _, f := range lFields {
		if n := st.GetFieldSize(f); n != s.size[f] {
			v.fail("the opened store counts %d documents of %q, the file %d", n, f, s.size[f])
		}
		if n := st.GetFieldLength(f); n != s.length[f] {
			v.fail("in the opened store %q has length %d, in the file %d", f, n, s.length[f])
		}
		for t, n := range st.GetNumberFieldTerm(f, lTerms) {
			if n != s.counts[f][t] {
				v.fail("the opened store counts %d documents of %q with term %q, the file %d", n, f, t, s.counts[f][t])
			}
		}
		for _, t := range lTerms {
			x := map[string]bool{}
			if set, ok := st.GetDocuments(f, t); ok {
				for d := range set.GetData() {
					x[d] = true
				}
			}
			if len(x) != len(s.expect[f][t]) || len(x) > 0 && !reflect.DeepEqual(x, s.expect[f][t]) {
				v.fail("the opened store lists %q for term %q of %q, the files %q", fmt.Sprint(x), t, f, fmt.Sprint(s.expect[f][t]))
			}
		}
	}
	var ids []string
	for id := range s.docs {
		ids = append(ids, id)
	}
	for _, f := range lFields {
		got := st.GetFields(ids, f)
		n := 0
		for id, m := range s.docs {
			e, ok := m[f]
			g, ok2 := got[id]
			if ok != ok2 || ok && cFields(map[string]model.Field{f: g}) != cFields(map[string]model.Field{f: e}) {
				v.fail("the opened store returns field %q of %q as %v %v, its file holds %v %v", f, id, g, ok2, e, ok)
			}
			if ok {
				n++
			}
		}
		if len(got) != n {
			v.fail("the opened store returns %d documents for field %q, %d have it", len(got), f, n)
		}
	}
}

// TestVerifC07 writes the files of a store and opens it.
func TestVerifC07(t *testing.T) {
	v := vStart(t)
	for round := 0; v.more(3000); round++ {
		s := lMake(v, round)
		v.kase("store %s", s)
		opened := round%4 == 0 && round < 400
		v.try(func() {
			d := NewDiskIO(s.root)
			size, length, err := d.LoadFieldSizeLengthOnHD()
			if err != nil || len(size) != len(s.size) || len(s.size) > 0 && !reflect.DeepEqual(size, s.size) || len(length) != len(s.length) || len(s.length) > 0 && !reflect.DeepEqual(length, s.length) {
				v.fail("totals load as %q %q %v", fmt.Sprint(size), fmt.Sprint(length), err)
			}
			counts, err := d.LoadNumberFieldTermOnHD()
			if err != nil || len(counts) != len(s.counts) {
				v.fail("per-term counts load as %q %v", fmt.Sprint(counts), err)
			}
			for f, m := range s.counts {
				if fmt.Sprint(counts[f]) != fmt.Sprint(m) {
					v.fail("per-term counts of %q load as %q", f, fmt.Sprint(counts[f]))
				}
			}
			for f := range s.fields {
				td, err := LoadTermDocumentsFromIndex(f, s.root)
				if err != nil || lSets(td) != lPlain(s.index[f]) {
					v.fail("index file of %q loads as %s %v", f, lSets(td), err)
				}
			}
			ix, err := d.LoadIndexOnHD()
			if err != nil {
				v.fail("loading the index fails: %v", err)
			}
			s.checkIndex(v, ix)
			for id, m := range s.docs {
				g, ok := d.LoadFieldDocumentOnHD(id)
				if !ok || cFields(g) != cFields(m) {
					v.fail("document %q loads as %s %v, its file holds %s", id, cFields(g), ok, cFields(m))
				}
			}
			if g, ok := d.LoadFieldDocumentOnHD("none"); ok {
				v.fail("a document without file loads as %s", cFields(g))
			}
			if opened {
				s.checkOpen(v)
			}
		})
		if !opened { // the opened store merges from time to time
			os.RemoveAll(s.root)
		}
	}
	v.ok()
}

// what the files of a field represent; the fragments are read first, so that a
// merge in progress is never seen as a loss
func (s *lStore) represented(f string) (map[string]map[string]bool, error) {
	e := map[string]map[string]bool{}
	add := func(path string) (err error) {
		b, x := os.ReadFile(path)
		if x != nil {
			return nil
		}
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%s does not decode: %v", path, r)
			}
		}()
		for t, ds := range DeserializeIndex(file.DecompressData(b)) {
			if e[t] == nil {
				e[t] = map[string]bool{}
			}
			for d := range ds {
				e[t][d] = true
			}
		}
		return nil
	}
	for n := range s.frags[f] {
		if err := add(filepath.Join(s.root, f, "temp", n)); err != nil {
			return e, err
		}
	}
	return e, add(filepath.Join(s.root, f, "index"))
}

// TestVerifC10 merges fragments, watches the files meanwhile, and makes the
// writing of an index fail.
func TestVerifC10(t *testing.T) {
	v := vStart(t)
	for round := 0; v.more(1500); round++ {
		s := lMake(v, round)
		blocked := ""
		for f := range s.fields {
			if v.r.Intn(4) == 0 {
				blocked = f
				os.MkdirAll(filepath.Join(s.root, f, "index%temp", "x"), 0o755)
				break
			}
		}
		// a big field, so that the merge takes a while
		if blocked == "" && v.r.Intn(4) == 0 {
			big := map[string]map[string]bool{"big": {}}
			for k := 0; k < 3000; k++ {
				big["big"][fmt.Sprint(k)] = true
			}
			s.fields["large"] = true
			s.expect["large"] = big
			s.frags["large"] = map[string]map[string]map[string]bool{"p": big}
			lWrite(v, filepath.Join(s.root, "large", "temp", "p"), SerializeIndex(big))
		}
		v.kase("store %s, index of %q cannot be written", s, blocked)
		var stop, bad atomic.Value
		done := make(chan bool)
		go func() {
			defer close(done)
			for stop.Load() == nil {
				for f, e := range s.expect {
					g, err := s.represented(f)
					if err != nil {
						bad.Store(err.Error())
						return
					}
					if lPlain(g) != lPlain(e) && !lSame(g, e) {
						bad.Store(fmt.Sprintf("field %q: the files represent only %d terms of %d or other documents at some point: %.300s instead of %.300s", f, len(g), len(e), lPlain(g), lPlain(e)))
						return
					}
				}
			}
		}()
		v.try(func() {
			d := NewDiskIO(s.root)
			ix, err := d.LoadIndexOnHD()
			if blocked == "" && err != nil {
				v.fail("merging fails: %v", err)
			}
			if err == nil {
				s.checkIndex(v, ix)
			}
			for f, e := range s.expect {
				g, err2 := s.represented(f)
				if err2 != nil || !lSame(g, e) {
					v.fail("after merging (%v), the files of %q represent %.400s, not %.400s (%v)", err, f, lPlain(g), lPlain(e), err2)
				}
				if err != nil {
					continue
				}
				td, err2 := LoadTermDocumentsFromIndex(f, s.root)
				if err2 != nil || lSets(td) != lPlain(e) {
					v.fail("after merging, the index file of %q holds %.400s, not %.400s (%v)", f, lSets(td), lPlain(e), err2)
				}
				if left, _ := os.ReadDir(filepath.Join(s.root, f, "temp")); len(left) > 0 {
					v.fail("after merging, fragment %q of %q is left", left[0].Name(), f)
				}
			}
			if b, err := os.ReadFile(s.another); err != nil || string(b) != "kept" {
				v.fail("another file changed")
			}
			for id, m := range s.docs {
				if g, ok := d.LoadFieldDocumentOnHD(id); !ok || cFields(g) != cFields(m) {
					v.fail("document %q changed", id)
				}
			}
		})
		stop.Store(true)
		<-done
		if b := bad.Load(); b != nil {
			v.fail("%v", b)
		}
		os.RemoveAll(s.root)
	}
	v.ok()
}

// the same postings, terms without documents aside
func lSame(a, b map[string]map[string]bool) bool {
	in := func(a, b map[string]map[string]bool) bool {
		for t, ds := range a {
			for d := range ds {
				if !b[t][d] {
					return false
				}
			}
		}
		return true
	}
	return in(a, b) && in(b, a)
}
