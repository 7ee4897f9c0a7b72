package replay

import (
	"fmt"
	"sort"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/model"
)

func TestVerifC01(t *testing.T) { vMemory(vStart(t), 1) }
func TestVerifC02(t *testing.T) { vMemory(vStart(t), 2) }
func TestVerifC03(t *testing.T) { vMemory(vStart(t), 3) }

var (
	vDocs   = []string{"1", "2", "3", "", "a/b", "docs", "é"}
	vFields = []string{"title", "text", "id", "", "docs", "a.b"}
	vTerms  = []string{"house", "car", "tree", "", "x", "y", "title", "1", "Ω"}
)

func vField(v *vRun, name string) model.Field {
	f := model.Field{Name: name, Length: v.num(9), TF: map[string]int{}}
	if v.r.Intn(12) == 0 {
		f.TF = nil
		return f
	}
	for n := v.r.Intn(5); n > 0; n-- {
		f.TF[v.str(vTerms)] = 1 + v.r.Intn(3)
	}
	return f
}

func vSameField(a, b model.Field) bool {
	return a.Name == b.Name && a.Length == b.Length && fmt.Sprint(a.TF) == fmt.Sprint(b.TF)
}

func vSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// vMemory runs random histories of saves against a plain model.
func vMemory(v *vRun, prop int) {
	for v.more(4000) {
		s := NewMemory()
		docs := append([]string{v.str(vDocs)}, vDocs...)
		fields := append([]string{v.str(vFields)}, vFields...)
		held := map[string]map[string]model.Field{}
		terms := map[string]bool{"absent": true}
		log := "NewMemory()"
		for n := 1 + v.r.Intn(14); n > 0; n-- {
			d, f := docs[v.r.Intn(4)], vField(v, fields[v.r.Intn(3)])
			if v.r.Intn(3) == 0 {
				d, f = docs[v.r.Intn(len(docs))], vField(v, fields[v.r.Intn(len(fields))])
			}
			log += fmt.Sprintf("; SaveOrUpdate(%q,%+v)", d, f)
			v.kase("%s", log)
			tf := map[string]int{}
			for k, c := range f.TF {
				tf[k] = c
				terms[k] = true
			}
			v.try(func() { s.SaveOrUpdate(d, f) })
			if held[d] == nil {
				held[d] = map[string]model.Field{}
			}
			held[d][f.Name] = model.Field{Name: f.Name, Length: f.Length, TF: tf}
			v.try(func() { vMemoryCheck(v, prop, s, held, docs, fields, terms) })
		}
	}
	v.ok()
}

func vMemoryCheck(v *vRun, prop int, s Storage, held map[string]map[string]model.Field, docs, fields []string, terms map[string]bool) {
	for _, f := range fields {
		size, length := 0, 0
		for _, m := range held {
			if x, ok := m[f]; ok {
				size++
				length += x.Length
			}
		}
		if prop == 2 {
			if g := s.GetFieldSize(f); g != size {
				v.fail("field %q counts %d documents, want %d", f, g, size)
			}
			if g := s.GetFieldLength(f); g != length {
				v.fail("field %q has length %d, want %d", f, g, length)
			}
		}
		var ts []string
		for t := range terms {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		nf := s.GetNumberFieldTerm(f, ts)
		for _, t := range ts {
			want := map[string]bool{}
			for d, m := range held {
				if x, ok := m[f]; ok {
					if _, ok := x.TF[t]; ok {
						want[d] = true
					}
				}
			}
			set, ok := s.GetDocuments(f, t)
			got := set.GetData()
			if prop == 1 && (fmt.Sprintf("%q", vSet(got)) != fmt.Sprintf("%q", vSet(want)) || !ok && len(want) > 0) {
				v.fail("GetDocuments(%q,%q) lists %q (%v), want %q", f, t, vSet(got), ok, vSet(want))
			}
			if prop == 1 {
				if p := s.GetIndex(f)[t]; p != nil && fmt.Sprintf("%q", vSet(p.GetData())) != fmt.Sprintf("%q", vSet(want)) {
					v.fail("GetIndex(%q)[%q] lists %q, want %q", f, t, vSet(p.GetData()), vSet(want))
				} else if p == nil && len(want) > 0 {
					v.fail("GetIndex(%q) misses %q", f, t)
				}
			}
			if g, ok := nf[t]; prop == 2 && (g != len(want) || !ok) {
				v.fail("term %q of field %q counts %d (%v), want %d", t, f, g, ok, len(want))
			}
		}
		if prop != 3 {
			continue
		}
		var ids []string
		for n := v.r.Intn(5); n > 0; n-- {
			ids = append(ids, docs[v.r.Intn(len(docs))])
		}
		if v.r.Intn(2) == 0 {
			ids = append(ids, docs...)
		}
		got := s.GetFields(ids, f)
		want := map[string]model.Field{}
		for _, d := range ids {
			if x, ok := held[d][f]; ok {
				want[d] = x
			}
		}
		if len(got) != len(want) {
			v.fail("GetFields(%q,%q) has %d entries, want %d", ids, f, len(got), len(want))
		}
		for d, w := range want {
			if g, ok := got[d]; !ok || !vSameField(g, w) {
				v.fail("GetFields(%q,%q)[%q] is %+v, want %+v", ids, f, d, g, w)
			}
		}
	}
}
