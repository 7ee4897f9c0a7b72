package replay

import (
	"os"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

// TestVerifC24Known: a record leaves the cache before its first flush.
func TestVerifC24Known(t *testing.T) {
	v := vStart(t)
	root, err := os.MkdirTemp(os.TempDir(), "disk")
	if err != nil {
		t.Skip(err)
	}
	d := &Disk{
		indexCh: make(chan IndexTransferData, 100), fieldCh: make(chan FieldSizeLengthTransferData, 100),
		numberFieldTermCh: make(chan NumberFieldTermTransferData, 100), documentFieldCh: make(chan DocumentFieldTransferData, 100),
		index: map[string]map[string]*model.Set{}, fieldLength: map[string]int{}, fieldSize: map[string]int{},
		numberFieldTerm: map[string]map[string]int{}, fieldDocumentCache: cache.NewLRUCache[map[string]model.Field](1),
		diskIO: DiskIO{RootFolder: root},
	}
	v.kase(`cache of one record; SaveOrUpdate("1",f); SaveOrUpdate("2",f); GetFields(["1"],"f") before the flush`)
	d.SaveOrUpdate("1", model.Field{Name: "f", Length: 1, TF: map[string]int{"a": 1}})
	d.SaveOrUpdate("2", model.Field{Name: "f", Length: 1, TF: map[string]int{"a": 1}})
	if r := d.GetFields([]string{"1"}, "f"); len(r) != 1 {
		v.fail("returns nothing for document 1")
	}
	v.ok()
}
