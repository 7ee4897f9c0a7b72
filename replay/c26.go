package replay

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

// rDisk is a disk store whose writers look at everything they are handed.
func rDisk(root string, capacity int, stop chan bool) *Disk {
	d := &Disk{
		indexCh: make(chan IndexTransferData, 4), fieldCh: make(chan FieldSizeLengthTransferData),
		numberFieldTermCh: make(chan NumberFieldTermTransferData), documentFieldCh: make(chan DocumentFieldTransferData),
		index: map[string]map[string]*model.Set{}, fieldLength: map[string]int{}, fieldSize: map[string]int{},
		numberFieldTerm: map[string]map[string]int{}, fieldDocumentCache: cache.NewLRUCache[map[string]model.Field](capacity),
		diskIO: DiskIO{RootFolder: root},
	}
	go func() {
		for {
			select {
			case <-d.indexCh:
			case <-d.fieldCh:
			case <-d.numberFieldTermCh:
			case m := <-d.documentFieldCh:
				for _, f := range m.Field {
					for range f.TF {
					}
				}
			case <-stop:
				return
			}
		}
	}()
	return d
}

func rField(r *rand.Rand, name string) model.Field {
	f := model.Field{Name: name, Length: r.Intn(9), TF: map[string]int{}}
	for n := 1 + r.Intn(4); n > 0; n-- {
		f.TF[fmt.Sprint("t", r.Intn(5))] = 1 + r.Intn(3)
	}
	return f
}

func rUse(r *rand.Rand, s Storage, op int) {
	name := fmt.Sprint("f", r.Intn(2))
	id := fmt.Sprint("d", r.Intn(6))
	switch r.Intn(12) {
	case 0:
		name = ""
	case 1:
		name = "unknown"
	case 2:
		id = ""
	case 3:
		id = fmt.Sprint("x", r.Intn(1000))
	}
	switch op {
	case 0, 1:
		s.SaveOrUpdate(id, rField(r, name))
	case 2:
		set, _ := s.GetDocuments(name, fmt.Sprint("t", r.Intn(5)))
		for range set.GetData() {
		}
	case 3:
		for _, set := range s.GetIndex(name) {
			if set != nil {
				for range set.GetData() {
				}
			}
		}
	case 4:
		for _, f := range s.GetFields([]string{id, "d1", "d2"}, name) {
			for range f.TF {
			}
		}
	case 5:
		s.GetFieldSize(name)
		s.GetFieldLength(name)
	case 6:
		for range s.GetNumberFieldTerm(name, []string{"t0", "t1", "t9"}) {
		}
	case 7:
		switch m := s.(type) {
		case *Memory:
			for _, f := range m.GetFieldDocumentTest(id) {
				for range f.TF {
				}
			}
		}
	case 8:
		s.UpdateIndex(id, rField(r, name))
	case 9:
		if d, ok := s.(*Disk); ok {
			d.UpdateFieldSizeLength(rField(r, name))
			d.UpdateNumberFieldTerm(rField(r, name))
			d.UpdateFieldDocument(id, rField(r, name))
		}
	}
}

// TestVerifC26 uses one store from many goroutines, under the race detector.
func TestVerifC26(t *testing.T) {
	v := vStart(t)
	for v.more(4000) {
		root, err := os.MkdirTemp(os.TempDir(), "race")
		if err != nil {
			t.Skip(err)
		}
		stop := make(chan bool)
		var s Storage
		kind := "memory store"
		if v.r.Intn(2) == 0 {
			s = NewMemory()
		} else {
			c := 1 + v.r.Intn(6)
			kind = fmt.Sprintf("disk store with a cache of %d", c)
			s = rDisk(root, c, stop)
		}
		a, b := v.r.Intn(10), v.r.Intn(10)
		v.kase("%s: operations %d and %d of the list save, save, documents, index, fields, totals, counts, document, updateindex, update from 6 goroutines (race detector)", kind, a, b)
		for i := 0; i < 8; i++ {
			rUse(v.r, s, 0)
		}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(v.r.Int63()))
			op := a
			if g%2 == 1 {
				op = b
			}
			go func() {
				defer wg.Done()
				for i := 0; i < 12; i++ {
					rUse(r, s, op)
				}
			}()
		}
		wg.Wait()
		close(stop)
		os.RemoveAll(root)
	}
	v.ok()
}
