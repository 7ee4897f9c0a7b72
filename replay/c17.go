package replay

import (
	"reflect"
	"testing"
)

func TestVerifC17(t *testing.T) {
	v := vStart(t)
	pool := []string{"a", "b", "", "aa", "É", "the", "x y", "A", "é", "0", "\x00"}
	for v.more(20000) {
		n := v.num(12)
		if v.r.Intn(50) == 0 {
			n = v.num(600)
		}
		in := v.words(n, pool)
		if n > 300 && v.r.Intn(2) == 0 { // many repetitions
			for i := range in {
				in[i] = in[0]
			}
		}
		cp := append([]string(nil), in...)
		v.kase("TermFrequency(%q)", in)
		want := map[string]int{}
		for _, w := range in {
			want[w]++
		}
		v.try(func() {
			got := TermFrequency(in)
			if got == nil {
				v.fail("nil result")
			}
			if !reflect.DeepEqual(got, want) {
				v.fail("got %v, want %v", got, want)
			}
			if len(in) != 0 && !reflect.DeepEqual(in, cp) {
				v.fail("the input was changed to %q", in)
			}
		})
	}
	v.ok()
}
