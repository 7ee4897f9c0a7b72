package replay

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/similarity"
)

// vIndex answers from a table, with delays.
type vIndex struct {
	ans   map[string]model.SearchResult
	mu    sync.Mutex
	delay []time.Duration
}

func (s *vIndex) IndexDocument(string, model.NormalizedDocument) {}
func (s *vIndex) Search(terms []string, f string) model.SearchResult {
	s.mu.Lock()
	var d time.Duration
	if len(s.delay) > 0 {
		d, s.delay = s.delay[0], s.delay[1:]
	}
	r := s.ans[fmt.Sprintf("%q %q", terms, f)]
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	} else {
		runtime.Gosched()
	}
	return r
}

func TestVerifC20(t *testing.T) {
	v := vStart(t)
	for v.more(3000) {
		ix := &vIndex{ans: map[string]model.SearchResult{}}
		nd, nq := v.r.Intn(8), v.r.Intn(5)
		if v.r.Intn(10) == 0 {
			nq = 20 + v.r.Intn(20)
		}
		var qs []model.Query
		for i := 0; i < nq; i++ {
			q := model.Query{FieldName: v.pick("title", "text"), Boost: []float64{0, 1, 2, 0.5, -1}[v.r.Intn(5)]}
			for k := v.r.Intn(4); k > 0; k-- {
				q.Terms = append(q.Terms, v.pick("a", "b", "c", ""))
			}
			qs = append(qs, q)
			key := fmt.Sprintf("%q %q", q.Terms, q.FieldName)
			if _, ok := ix.ans[key]; ok {
				continue
			}
			r := model.SearchResult{AvgDocLength: 1 + float64(v.r.Intn(6)), TotalDocuments: float64(10 + nd), FieldDocuments: map[string]model.Field{}, NumFieldsWithTerm: map[string]int{"a": 2, "b": 1 + v.r.Intn(4), "c": 0, "": 1}}
			for d := 0; d < nd; d++ {
				if v.r.Intn(3) == 0 {
					continue
				}
				id := fmt.Sprint("d", d)
				if d == 5 {
					id = ""
				}
				r.FieldDocuments[id] = model.Field{Name: q.FieldName, Length: v.r.Intn(9), TF: map[string]int{"a": v.r.Intn(4), "b": v.r.Intn(3), "": 1}}
			}
			ix.ans[key] = r
		}
		for i := 0; i < nq; i++ {
			var d time.Duration
			if v.r.Intn(3) == 0 {
				d = time.Duration(v.r.Intn(400)) * time.Microsecond
			}
			ix.delay = append(ix.delay, d)
		}
		v.kase("Search(%+v) over %d documents", qs, nd)
		want := map[string]float64{}
		for _, q := range qs {
			r := ix.ans[fmt.Sprintf("%q %q", q.Terms, q.FieldName)]
			for d, f := range r.FieldDocuments {
				want[d] += similarity.BM25(q.Terms, 1.2, 0.75, q.Boost, r.AvgDocLength, r.TotalDocuments, r.NumFieldsWithTerm, f)
			}
		}
		s := &Standard{Index: ix}
		var got []model.DocumentScore
		v.try(func() { got = s.Search(qs) })
		seen := map[string]bool{}
		for i, g := range got {
			w, ok := want[g.Id]
			if !ok {
				v.fail("document %q is listed but no query matches it", g.Id)
			}
			if seen[g.Id] {
				v.fail("document %q is listed twice", g.Id)
			}
			seen[g.Id] = true
			if math.Abs(g.Score-w) > 1e-9*(1+math.Abs(w)) {
				v.fail("document %q has score %v, the sum over the queries is %v", g.Id, g.Score, w)
			}
			if i > 0 && got[i-1].Score < g.Score {
				v.fail("rank %d has score %v, rank %d has %v", i-1, got[i-1].Score, i, g.Score)
			}
		}
		for d := range want {
			if !seen[d] {
				v.fail("document %q matches but is not listed", d)
			}
		}
	}
	v.ok()
}
