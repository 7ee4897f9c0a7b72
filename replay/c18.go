package replay

import (
	"math"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

func TestVerifC18(t *testing.T) {
	v := vStart(t)
	pool := []string{"a", "b", "c", "d", "e", "zz"}
	close := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }
	f := func(xs ...float64) float64 { return xs[v.r.Intn(len(xs))] }
	for v.more(40000) {
		N := float64(v.num(40))
		if v.r.Intn(8) == 0 {
			N = float64(v.r.Intn(2000000))
		}
		n := float64(v.r.Intn(int(N) + 1))
		v.kase("IdfBM25(%v,%v)", N, n)
		v.try(func() {
			got := metric.IdfBM25(N, n)
			want := math.Log(1 + (N-n+0.5)/(n+0.5))
			for _, x := range []float64{N + v.r.Float64(), N * 1e3, n + 0.25, n} {
				if g, w := metric.IdfBM25(x, n), math.Log(1+(x-n+0.5)/(n+0.5)); !close(g, w) {
					v.kase("IdfBM25(%v,%v)", x, n)
					v.fail("got %v, want %v", g, w)
				}
			}
			if !close(got, want) {
				v.fail("got %v, want %v", got, want)
			}
			if n < N && metric.IdfBM25(N, n+1) > got+1e-9 {
				v.fail("idf increases with n")
			}
			if got <= 0 {
				v.fail("idf not positive")
			}
		})
		q := v.words(v.num(6), pool)
		tf, nd := map[string]int{}, map[string]int{}
		length := 0
		for _, w := range pool {
			if v.r.Intn(2) == 0 {
				tf[w] = v.num(5)
				length += tf[w]
			}
			if v.r.Intn(3) > 0 {
				nd[w] = v.r.Intn(int(N) + 1)
			}
		}
		if v.r.Intn(3) == 0 {
			length += v.num(30)
		}
		k1, b := f(1.2, 2, 0.5), f(0.75, 0, 0.3, 0.99)
		boost := f(0, 1, 2, 0.5, 3.5, -1, -0.25)
		avg := f(1, 2.5, 10, 0.25, 100)
		v.kase("BM25(%q, k1=%v, b=%v, boost=%v, avg=%v, N=%v, nd=%v, field{Length:%d TF:%v})", q, k1, b, boost, avg, N, nd, length, tf)
		v.try(func() {
			got := BM25(q, k1, b, boost, avg, N, nd, model.Field{Length: length, TF: tf})
			want := 0.0
			bo := boost
			if bo == 0 {
				bo = 1
			}
			for _, w := range q {
				t, n := float64(tf[w]), float64(nd[w])
				want += bo * math.Log(1+(N-n+0.5)/(n+0.5)) * (t * (k1 + 1)) / (t + k1*(1-b+b*(float64(length)/avg)))
			}
			if !close(got, want) {
				v.fail("got %v, want %v", got, want)
			}
		})
	}
	v.ok()
}
