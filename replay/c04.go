package replay

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

func TestVerifC04(t *testing.T) { vDisk(vStart(t), 4) }
func TestVerifC05(t *testing.T) { vDisk(vStart(t), 5) }
func TestVerifC24(t *testing.T) { vDisk(vStart(t), 24) }

var (
	dDocs   = []string{"1", "2", "3", "a b", "é", "x.y"}
	dFields = []string{"title", "text", "id", "", "a.b"}
	dTerms  = []string{"house", "car", "tree", "", "x", "1", "Ω"}
)

func dField(v *vRun, name string) model.Field {
	f := model.Field{Name: name, Length: v.num(9), TF: map[string]int{}}
	for n := v.r.Intn(5); n > 0; n-- {
		f.TF[v.str(dTerms)] = 1 + v.r.Intn(3)
	}
	return f
}

func dClone(m map[string]model.Field) map[string]model.Field {
	out := map[string]model.Field{}
	for k, f := range m {
		tf := map[string]int{}
		for t, c := range f.TF {
			tf[t] = c
		}
		out[k] = model.Field{Name: f.Name, Length: f.Length, TF: tf}
	}
	return out
}

func dShow(m map[string]model.Field) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%q:%q/%d/%v ", k, m[k].Name, m[k].Length, m[k].TF)
	}
	return s
}

// dBox is a disk store whose writers only record what they are handed.
type dBox struct {
	*Disk
	mu    sync.Mutex
	idx   []IndexTransferData
	siz   []FieldSizeLengthTransferData
	num   []NumberFieldTermTransferData
	doc   []DocumentFieldTransferData
	snap  []map[string]model.Field
	sync_ func()
	stop  chan bool
}

func dNew(root string, capacity int) *dBox {
	b := &dBox{stop: make(chan bool)}
	b.Disk = &Disk{
		indexCh: make(chan IndexTransferData), fieldCh: make(chan FieldSizeLengthTransferData),
		numberFieldTermCh: make(chan NumberFieldTermTransferData), documentFieldCh: make(chan DocumentFieldTransferData),
		index: map[string]map[string]*model.Set{}, fieldLength: map[string]int{}, fieldSize: map[string]int{},
		numberFieldTerm: map[string]map[string]int{}, fieldDocumentCache: cache.NewLRUCache[map[string]model.Field](capacity),
		diskIO: DiskIO{RootFolder: root},
	}
	ask, done := make(chan bool), make(chan bool)
	go func() {
		for {
			select {
			case m := <-b.indexCh:
				b.idx = append(b.idx, m)
			case m := <-b.fieldCh:
				b.siz = append(b.siz, m)
			case m := <-b.numberFieldTermCh:
				b.num = append(b.num, m)
			case m := <-b.documentFieldCh:
				b.doc = append(b.doc, m)
				b.snap = append(b.snap, dClone(m.Field))
			case <-ask:
				done <- true
			case <-b.stop:
				return
			}
		}
	}()
	b.sync_ = func() { ask <- true; <-done }
	return b
}

func dPut(root, id string, m map[string]model.Field) {
	p := filepath.Join(root, file.Documents, file.DocumentsMetrics)
	os.MkdirAll(p, 0o755)
	file.SecureSaveFile(p, documentFile(id), file.CompressData(SerializeFieldMap(m)))
}

// vDisk runs random histories of saves and reads against a plain model.
func vDisk(v *vRun, prop int) {
	base := os.TempDir()
	for v.more(3000) {
		root, err := os.MkdirTemp(base, "disk")
		if err != nil {
			v.t.Skip(err)
		}
		vDiskCase(v, prop, root)
		os.RemoveAll(root)
	}
	v.ok()
}

func vDiskCase(v *vRun, prop int, root string) {
	capacity := 1 + v.r.Intn(7)
	b := dNew(root, capacity)
	defer close(b.stop)
	log := fmt.Sprintf("store with cache %d", capacity)
	held := map[string]map[string]model.Field{} // everything saved
	listed := map[string]map[string]map[string]bool{}
	docs := append([]string{v.str(dDocs)}, dDocs...)
	fields := append([]string{v.str(dFields)}, dFields...)
	used := 0
	if v.r.Intn(2) == 0 {
		// a reopened store starts with counts
		for n := v.r.Intn(4); n > 0; n-- {
			f, t := fields[v.r.Intn(len(fields))], v.str(dTerms)
			if b.numberFieldTerm[f] == nil {
				b.numberFieldTerm[f] = map[string]int{}
			}
			b.numberFieldTerm[f][t] = v.num(2000)
			b.fieldSize[f], b.fieldLength[f] = v.num(2000), v.num(9000)
			log += fmt.Sprintf("; counts of %q: %d/%d, %q %d", f, b.fieldSize[f], b.fieldLength[f], t, b.numberFieldTerm[f][t])
		}
	}
	for _, d := range dDocs {
		if v.r.Intn(4) == 0 {
			m := map[string]model.Field{}
			for n := v.r.Intn(3); n >= 0; n-- {
				f := dField(v, fields[v.r.Intn(len(fields))])
				m[f.Name] = f
			}
			log += fmt.Sprintf("; on disk %q: %s", d, dShow(m))
			dPut(root, d, m)
			held[d] = m
		}
	}
	touched := map[string]bool{}
	for n := 1 + v.r.Intn(12); n > 0; n-- {
		if v.r.Intn(3) == 0 {
			var ids []string
			for k := v.r.Intn(4); k >= 0; k-- {
				ids = append(ids, docs[v.r.Intn(len(docs))])
			}
			for _, d := range ids {
				touched[d] = true
			}
			if len(touched) > capacity {
				break // records would leave the cache before they are flushed
			}
			f := fields[v.r.Intn(len(fields))]
			log += fmt.Sprintf("; GetFields(%q,%q)", ids, f)
			v.kase("%s", log)
			var got map[string]model.Field
			v.try(func() { got = b.GetFields(ids, f) })
			want := map[string]model.Field{}
			for _, d := range ids {
				if x, ok := held[d][f]; ok {
					want[d] = x
				}
			}
			if prop == 24 && dShow(got) != dShow(want) {
				v.fail("returns %s, want %s", dShow(got), dShow(want))
			}
			continue
		}
		d, f := docs[v.r.Intn(len(docs))], dField(v, fields[v.r.Intn(len(fields))])
		if _, ok := held[d][f.Name]; ok {
			continue
		}
		touched[d] = true
		if len(touched) > capacity {
			break
		}
		log += fmt.Sprintf("; SaveOrUpdate(%q,%s)", d, dShow(map[string]model.Field{f.Name: f}))
		v.kase("%s", log)
		size, length := b.GetFieldSize(f.Name), b.GetFieldLength(f.Name)
		ts := append([]string{}, dTerms...)
		for t := range f.TF {
			ts = append(ts, t)
		}
		before := map[string]string{}
		for _, g := range fields {
			before[g] = fmt.Sprint(b.GetNumberFieldTerm(g, ts), b.GetFieldSize(g), b.GetFieldLength(g))
		}
		nf := b.GetNumberFieldTerm(f.Name, ts)
		b.sync_()
		b.idx, b.siz, b.num = nil, nil, nil
		nd := len(b.doc)
		given := dClone(map[string]model.Field{f.Name: f})[f.Name]
		v.try(func() { b.SaveOrUpdate(d, f) })
		b.sync_()
		used++
		if held[d] == nil {
			held[d] = map[string]model.Field{}
		}
		held[d][f.Name] = given
		for t := range given.TF {
			if listed[f.Name] == nil {
				listed[f.Name] = map[string]map[string]bool{}
			}
			if listed[f.Name][t] == nil {
				listed[f.Name][t] = map[string]bool{}
			}
			listed[f.Name][t][d] = true
		}
		if prop == 4 {
			dCounts(v, b, f, given, size, length, nf, ts, fields, before)
			dListed(v, b, listed, fields, ts)
		}
		if prop == 5 {
			dHanded(v, b, d, f, given, held[d], nd)
			for i, m := range b.doc {
				if dShow(m.Field) != dShow(b.snap[i]) {
					v.fail("the record handed over for %q is now %s, was %s", m.DocumentId, dShow(m.Field), dShow(b.snap[i]))
				}
			}
		}
	}
}

func dCounts(v *vRun, b *dBox, f, given model.Field, size, length int, nf map[string]int, ts, fields []string, before map[string]string) {
	if g := b.GetFieldSize(f.Name); g != size+1 {
		v.fail("field %q counts %d documents, want %d", f.Name, g, size+1)
	}
	if g := b.GetFieldLength(f.Name); g != length+given.Length {
		v.fail("field %q has length %d, want %d", f.Name, g, length+given.Length)
	}
	after := b.GetNumberFieldTerm(f.Name, ts)
	for _, t := range ts {
		want := nf[t]
		if _, ok := given.TF[t]; ok {
			want++
		}
		if g, ok := after[t]; g != want || !ok {
			v.fail("term %q of field %q counts %d (%v), want %d", t, f.Name, g, ok, want)
		}
	}
	for _, g := range fields {
		if g != f.Name {
			if now := fmt.Sprint(b.GetNumberFieldTerm(g, ts), b.GetFieldSize(g), b.GetFieldLength(g)); now != before[g] {
				v.fail("field %q changed from %s to %s", g, before[g], now)
			}
		}
	}
}

func dListed(v *vRun, b *dBox, listed map[string]map[string]map[string]bool, fields, ts []string) {
	for _, g := range fields {
		all := map[string]bool{}
		for _, t := range ts {
			all[t] = true
		}
		for t := range b.GetIndex(g) {
			all[t] = true
		}
		for t := range all {
			want := fmt.Sprintf("%q", dSet(listed[g][t]))
			set, ok := b.GetDocuments(g, t)
			if got := fmt.Sprintf("%q", dSet(set.GetData())); got != want || ok != (len(listed[g][t]) > 0) {
				v.fail("GetDocuments(%q,%q) lists %s (%v), want %s", g, t, got, ok, want)
			}
			if p := b.GetIndex(g)[t]; p != nil && fmt.Sprintf("%q", dSet(p.GetData())) != want || p == nil && len(listed[g][t]) > 0 {
				v.fail("GetIndex(%q)[%q] differs from %s", g, t, want)
			}
		}
	}
}

func dSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func dHanded(v *vRun, b *dBox, d string, f, given model.Field, record map[string]model.Field, nd int) {
	post, num, tot := map[string]int{}, map[string]int{}, 0
	for _, m := range b.idx {
		if m.FieldName != f.Name || m.DocumentId != d {
			v.fail("a posting for %+v was handed over", m)
		}
		post[m.Term]++
	}
	for _, m := range b.num {
		if m.FieldName != f.Name || m.Size != b.numberFieldTerm[f.Name][m.Term] {
			v.fail("the count %+v was handed over, the store has %d", m, b.numberFieldTerm[f.Name][m.Term])
		}
		num[m.Term]++
	}
	for _, m := range b.siz {
		if m.FieldName != f.Name || m.Size != b.GetFieldSize(f.Name) || m.Length != b.GetFieldLength(f.Name) {
			v.fail("the totals %+v were handed over, the store has %d and %d", m, b.GetFieldSize(f.Name), b.GetFieldLength(f.Name))
		}
		tot++
	}
	if tot == 0 {
		v.fail("no totals were handed over")
	}
	for t := range given.TF {
		if post[t] == 0 {
			v.fail("no posting for term %q was handed over", t)
		}
		if num[t] == 0 {
			v.fail("no count for term %q was handed over", t)
		}
	}
	for t := range post {
		if _, ok := given.TF[t]; !ok {
			v.fail("a posting for term %q was handed over", t)
		}
	}
	for t := range num {
		if _, ok := given.TF[t]; !ok {
			v.fail("a count for term %q was handed over", t)
		}
	}
	if len(b.doc) == nd {
		v.fail("no record was handed over")
	}
	for _, m := range b.doc[nd:] {
		if m.DocumentId != d || dShow(m.Field) != dShow(record) {
			v.fail("the record %q: %s was handed over, want %q: %s", m.DocumentId, dShow(m.Field), d, dShow(record))
		}
	}
}
