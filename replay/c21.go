package replay

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
)

func vLeaves(m map[string]interface{}, path []string, out map[string][]interface{}) {
	for k, v := range m {
		p := append(append([]string(nil), path...), k)
		if s, ok := v.(map[string]interface{}); ok {
			vLeaves(s, p, out)
			continue
		}
		key := ""
		for i, x := range p {
			if i > 0 {
				key += "."
			}
			key += x
		}
		out[key] = append(out[key], v)
	}
}

func vDoc(v *vRun, depth int) map[string]interface{} {
	pool := []string{"a", "b", "c", "", "Id", "id", "a.b", "é", ".", "Title"}
	m := map[string]interface{}{}
	for i := v.r.Intn(5); i > 0; i-- {
		k := v.str(pool)
		switch x := v.r.Intn(9); {
		case x < 3 && depth > 0:
			m[k] = vDoc(v, depth-1)
		case x < 4:
			m[k] = nil
		case x < 5:
			m[k] = float64(v.num(9))
		case x < 6:
			m[k] = []interface{}{"x", map[string]interface{}{"y": "z"}}
		case x < 7:
			m[k] = v.r.Intn(2) == 0
		default:
			m[k] = v.str(pool)
		}
	}
	return m
}

func TestVerifC21(t *testing.T) {
	v := vStart(t)
	for v.more(20000) {
		d := vDoc(v, v.r.Intn(6))
		b, _ := json.Marshal(d)
		v.kase("Flatten(%s)", b)
		want := map[string][]interface{}{}
		vLeaves(d, nil, want)
		v.try(func() {
			got := Flatten(d)
			if b2, _ := json.Marshal(d); string(b2) != string(b) {
				v.fail("the input was changed to %s", b2)
			}
			if len(got) != len(want) {
				v.fail("got %d keys %v, want %d", len(got), got, len(want))
			}
			for k, vs := range want {
				g, ok := got[k]
				if !ok {
					v.fail("no entry %q", k)
				}
				found := false
				for _, x := range vs {
					found = found || reflect.DeepEqual(x, g)
				}
				if !found {
					v.fail("entry %q is %v, want %v", k, g, vs)
				}
			}
			v.kase("GetID(%s)", b)
			id := ""
			if x, ok := d["Id"]; ok {
				id = fmt.Sprint(x)
			}
			if g := GetID(d); g != id {
				v.fail("got %q, want %q", g, id)
			}
		})
	}
	v.ok()
}
