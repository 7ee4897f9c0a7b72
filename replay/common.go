package replay

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync/atomic"
	"testing"
	"time"
)

type vDictT struct {
	Str []string `json:"str"`
	Int []int64  `json:"int"`
}

type vRun struct {
	t    *testing.T
	r    *rand.Rand
	dict vDictT
	end  time.Time
	cur  string
	tick int64
	n    int
	what atomic.Value
}

// vStart begins a replay: random source, constants of the checked code, time
// budget and a watchdog for calls that never come back.
func vStart(t *testing.T) *vRun {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v := &vRun{t: t, r: rand.New(rand.NewSource(seed*7919 + 17)), cur: os.Getenv("VERIF_CUR")}
	if b, err := os.ReadFile(os.Getenv("VERIF_DICT")); err == nil {
		json.Unmarshal(b, &v.dict)
	}
	sec, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if sec <= 0 {
		sec = 20
	}
	v.end = time.Now().Add(time.Duration(sec) * time.Second)
	atomic.StoreInt64(&v.tick, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if time.Since(time.Unix(0, atomic.LoadInt64(&v.tick))) > 25*time.Second {
				fmt.Printf("\nFAILING-INPUT does not return: %v\n", v.what.Load())
				os.Exit(3)
			}
		}
	}()
	return v
}

// more tells whether the budget (time and cases) allows another case.
func (v *vRun) more(max int) bool {
	v.n++
	return v.n <= max && time.Now().Before(v.end)
}

// kase notes the input about to be run.
func (v *vRun) kase(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	v.what.Store(s)
	atomic.StoreInt64(&v.tick, time.Now().UnixNano())
	if v.cur != "" {
		os.WriteFile(v.cur, []byte(s), 0o644)
	}
}

// fail reports the current input.
func (v *vRun) fail(format string, args ...interface{}) {
	fmt.Printf("\nFAILING-INPUT %v :: %s\n", v.what.Load(), fmt.Sprintf(format, args...))
	if v.cur != "" {
		os.Remove(v.cur)
	}
	v.t.FailNow()
}

func (v *vRun) ok() {
	if v.cur != "" {
		os.Remove(v.cur)
	}
}

// try runs f; a panic is reported as a failure of the current input.
func (v *vRun) try(f func()) {
	defer func() {
		if r := recover(); r != nil {
			v.fail("panic: %v", r)
		}
	}()
	f()
}

func (v *vRun) panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return
}

func (v *vRun) pick(ss ...string) string { return ss[v.r.Intn(len(ss))] }

// str is a word from the given pool or from the constants of the code.
func (v *vRun) str(pool []string) string {
	if len(v.dict.Str) > 0 && v.r.Intn(4) == 0 {
		return v.dict.Str[v.r.Intn(len(v.dict.Str))]
	}
	return pool[v.r.Intn(len(pool))]
}

// num is a small number, or one next to a constant of the code.
func (v *vRun) num(max int) int {
	if len(v.dict.Int) > 0 && v.r.Intn(3) == 0 {
		n := v.dict.Int[v.r.Intn(len(v.dict.Int))] + int64(v.r.Intn(3)-1)
		if n >= 0 && n <= int64(max)*8 {
			return int(n)
		}
	}
	return v.r.Intn(max + 1)
}

func (v *vRun) words(n int, pool []string) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = v.str(pool)
	}
	return out
}
