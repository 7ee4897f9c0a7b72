package replay

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
)

// vStore is a store with fixed content; its answers may be delayed.
type vStore struct {
	v      *vRun
	lists  map[string]map[string]model.Set // field -> term -> documents
	fields map[string]map[string]model.Field
	size   map[string]int
	length map[string]int
	mu     sync.Mutex
	delay  []time.Duration
}

func (s *vStore) pause() {
	s.mu.Lock()
	var d time.Duration
	if len(s.delay) > 0 {
		d, s.delay = s.delay[0], s.delay[1:]
	}
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	} else {
		runtime.Gosched()
	}
}

func (s *vStore) GetDocuments(f, t string) (model.Set, bool) {
	s.pause()
	r, ok := s.lists[f][t]
	return r, ok
}
func (s *vStore) GetFields(ids []string, f string) map[string]model.Field {
	out := map[string]model.Field{}
	for _, d := range ids {
		if x, ok := s.fields[d][f]; ok {
			out[d] = x
		}
	}
	s.pause()
	return out
}
func (s *vStore) SaveOrUpdate(string, model.Field)      {}
func (s *vStore) UpdateIndex(string, model.Field)       {}
func (s *vStore) GetIndex(string) map[string]*model.Set { return nil }
func (s *vStore) GetFieldLength(f string) int           { return s.length[f] }
func (s *vStore) GetFieldSize(f string) int             { return s.size[f] }
func (s *vStore) GetNumberFieldTerm(f string, ts []string) map[string]int {
	out := map[string]int{}
	for _, t := range ts {
		d := s.lists[f][t]
		out[t] = d.Size()
	}
	return out
}

func TestVerifC19(t *testing.T) {
	v := vStart(t)
	cpu := runtime.NumCPU()
	for v.more(3000) {
		s := &vStore{v: v, lists: map[string]map[string]model.Set{}, fields: map[string]map[string]model.Field{}, size: map[string]int{}, length: map[string]int{}}
		nd := v.r.Intn(12)
		if v.r.Intn(8) == 0 {
			nd = 60
		}
		nt := 1 + v.r.Intn(8)
		for _, f := range []string{"title", "text"} {
			s.lists[f] = map[string]model.Set{}
			for d := 0; d < nd; d++ {
				id := fmt.Sprint("d", d)
				if d == 3 {
					id = ""
				}
				fd := model.Field{Name: f, Length: v.r.Intn(9), TF: map[string]int{}}
				for k := 0; k < nt; k++ {
					if v.r.Intn(3) == 0 {
						continue
					}
					t := fmt.Sprint("t", k)
					if k == 2 {
						t = ""
					}
					fd.TF[t] = 1 + v.r.Intn(3)
					if _, ok := s.lists[f][t]; !ok {
						s.lists[f][t] = *model.NewSet()
					}
					l := s.lists[f][t]
					l.Add(id)
				}
				if v.r.Intn(6) == 0 {
					continue // listed, but the field is gone
				}
				if s.fields[id] == nil {
					s.fields[id] = map[string]model.Field{}
				}
				s.fields[id][f] = fd
				s.size[f]++
				s.length[f] += fd.Length
			}
		}
		var terms []string
		n := v.r.Intn(6)
		if v.r.Intn(10) == 0 {
			n = 4*cpu + v.r.Intn(8)
		}
		for i := 0; i < n; i++ {
			terms = append(terms, v.pick(fmt.Sprint("t", v.r.Intn(nt+2)), fmt.Sprint("t", v.r.Intn(nt)), "", "absent"))
		}
		for i := 0; i < 30; i++ {
			var d time.Duration
			if v.r.Intn(4) == 0 {
				d = time.Duration(v.r.Intn(300)) * time.Microsecond
			}
			s.delay = append(s.delay, d)
		}
		f := v.pick("title", "text", "absent")
		v.kase("Search(%q, %q) on a store with %d documents and %d terms", terms, f, nd, nt)
		given := append([]string(nil), terms...)
		ix := &InvertedIndex{Storage: s}
		var r model.SearchResult
		v.try(func() { r = ix.Search(terms, f) })
		want := map[string]bool{}
		for _, t := range given {
			l := s.lists[f][t]
			for d := range l.GetData() {
				if _, ok := s.fields[d][f]; ok {
					want[d] = true
				}
			}
		}
		for d := range want {
			x, ok := r.FieldDocuments[d]
			if !ok {
				v.fail("document %q matches but is missing from the result", d)
			}
			if fmt.Sprint(x) != fmt.Sprint(s.fields[d][f]) {
				v.fail("document %q has field %v, stored is %v", d, x, s.fields[d][f])
			}
		}
		for d := range r.FieldDocuments {
			if !want[d] {
				v.fail("document %q is in the result but does not match", d)
			}
		}
		if r.TotalDocuments != float64(s.size[f]) {
			v.fail("TotalDocuments = %v, the store has %d", r.TotalDocuments, s.size[f])
		}
		if s.size[f] > 0 && r.AvgDocLength != float64(s.length[f])/float64(s.size[f]) {
			v.fail("AvgDocLength = %v, want %d/%d", r.AvgDocLength, s.length[f], s.size[f])
		}
		for _, t := range given {
			l := s.lists[f][t]
			if c, ok := r.NumFieldsWithTerm[t]; !ok || c != l.Size() {
				v.fail("NumFieldsWithTerm[%q] = %d, want %d", t, c, l.Size())
			}
		}
		if fmt.Sprint(terms) != fmt.Sprint(given) {
			v.fail("the term list was changed to %q", terms)
		}
	}
	v.ok()
}
