package replay

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

var cWords = []string{"", "a", "b", "title", "Ω", "\x00", "a\x00b", "house", "\xff", "a/b", "A"}

func cNum(v *vRun) int {
	switch v.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 2147483647
	case 2:
		return -2147483648
	case 3:
		return -1
	}
	return v.num(300)
}

// TestVerifC08 encodes random records and decodes them again.
func TestVerifC08(t *testing.T) {
	v := vStart(t)
	for v.more(20000) {
		name, size, length := v.str(cWords), int32(cNum(v)), int32(cNum(v))
		v.kase("totals (%q,%d,%d)", name, size, length)
		v.try(func() {
			n, s, l := DeserializeFieldSizeLength(SerializeFieldSizeLength(name, size, length))
			if n != name || s != size || l != length {
				v.fail("decodes to (%q,%d,%d)", n, s, l)
			}
		})
		nt := map[string]int{}
		for n := v.r.Intn(7); n > 0; n-- {
			nt[v.str(cWords)] = cNum(v)
		}
		v.kase("counts %q", fmt.Sprint(nt))
		v.try(func() {
			if g := DeserializeNumberFieldTerm(SerializeNumberFieldTerm(nt)); !(len(g) == 0 && len(nt) == 0) && !reflect.DeepEqual(g, nt) {
				v.fail("decodes to %q", fmt.Sprint(g))
			}
		})
		fm := map[string]model.Field{}
		for n := v.r.Intn(4); n > 0; n-- {
			f := model.Field{Name: v.str(cWords), Length: cNum(v), TF: map[string]int{}}
			for k := v.r.Intn(4); k > 0; k-- {
				f.TF[v.str(cWords)] = cNum(v)
			}
			fm[f.Name] = f
		}
		v.kase("fields %s", cFields(fm))
		v.try(func() {
			if g := DeserializeFieldMap(SerializeFieldMap(fm)); cFields(g) != cFields(fm) {
				v.fail("decodes to %s", cFields(g))
			}
		})
		ix := map[string]map[string]bool{}
		for n := v.r.Intn(5); n > 0; n-- {
			w := v.str(cWords)
			ix[w] = map[string]bool{}
			for k := v.r.Intn(4); k > 0; k-- {
				ix[w][v.str(cWords)] = true
			}
		}
		v.kase("index %v", cIndex(ix))
		v.try(func() {
			if g := DeserializeIndex(SerializeIndex(ix)); cIndex(g) != cIndex(ix) {
				v.fail("decodes to %v", cIndex(g))
			}
		})
		data := make([]byte, v.r.Intn(50))
		v.r.Read(data)
		v.kase("bytes %x", data)
		v.try(func() {
			if g := file.DecompressData(file.CompressData(data)); string(g) != string(data) {
				v.fail("decompress to %x", g)
			}
		})
	}
	v.ok()
}

func cFields(m map[string]model.Field) string {
	x := map[string]string{}
	for k, f := range m {
		x[k] = fmt.Sprintf("%q/%d/%v", f.Name, f.Length, f.TF)
	}
	return fmt.Sprintf("%q", fmt.Sprint(x))
}

func cIndex(m map[string]map[string]bool) string {
	x := map[string]string{}
	for k, s := range m {
		x[k] = fmt.Sprint(s)
	}
	return fmt.Sprintf("%q", fmt.Sprint(x))
}
