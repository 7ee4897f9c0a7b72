package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type solveCfg struct {
	workers  int
	candRL   int // rlimit of automatic candidates
	userRL   int // rlimit of template candidates
	goalRL   int // rlimit of goals in the incremental pass
	finalSec int // timeout of the portfolio
	crossSec int // >0: confirm with cvc5 (thorough)
	keepDir  string
}

func (v *VC) header() string {
	var b strings.Builder
	for _, p := range v.pre {
		b.WriteString(p)
		b.WriteByte('\n')
	}
	if d := v.litDistinct(); d != "" {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	b.WriteString(v.litFacts())
	return b.String()
}

// litFacts gives the value, on the string constants of the program, of the
// predicates on file names that the contracts declare.
func (v *VC) litFacts() string {
	var b strings.Builder
	for _, f := range litPreds {
		n := sym("$" + f.name)
		if !v.preSeen[fmt.Sprintf("(declare-fun %s (Str) Bool)", n)] {
			continue
		}
		for _, s := range v.litOrd {
			fmt.Fprintf(&b, "(assert (= (%s %s) %v))\n", n, v.lits[s], f.f(s))
		}
	}
	return b.String()
}

var litPreds = []struct {
	name string
	f    func(string) bool
}{
	{"nosep", func(s string) bool { return !strings.ContainsAny(s, "/\x00") }},
	{"plain", func(s string) bool { return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\x00") }},
	{"badesc", badEscape},
	{"helperName", badEscape},
	{"okesc", func(s string) bool {
		return !strings.HasSuffix(s, "%") && !badEscape(s) && !(len(s) >= 2 && s[len(s)-2] == '%')
	}},
}

// badEscape: s holds a percent sign followed by something else than two
// hexadecimal digits.
func badEscape(s string) bool {
	hex := func(c byte) bool {
		return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
	}
	for i := 0; i+2 < len(s); i++ {
		if s[i] == '%' && !(hex(s[i+1]) && hex(s[i+2])) {
			return true
		}
	}
	return false
}

const z3opts = "(set-option :smt.array.extensional false)(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 6)\n(set-option :model false)\n"
const z3optsOld = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	w   *bufio.Writer
}

func startProc(name string, args ...string) (*proc, error) {
	c := exec.Command(name, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = os.Stderr
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{c, in, bufio.NewReaderSize(o, 1<<16), bufio.NewWriterSize(in, 1<<16)}, nil
}

func (p *proc) send(s string) { p.w.WriteString(s); p.w.WriteByte('\n') }

// ask runs check-sat and returns its answer.
func (p *proc) ask() string {
	p.send("(check-sat)")
	p.w.Flush()
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return "dead"
		}
		l = strings.TrimSpace(l)
		switch l {
		case "unknown":
			p.send("(get-info :reason-unknown)")
			p.w.Flush()
			r, err := p.out.ReadString('\n')
			if err != nil {
				return "dead"
			}
			if strings.Contains(r, "limit") || strings.Contains(r, "cancel") || strings.Contains(r, "timeout") {
				return "limit"
			}
			return "unknown"
		case "sat", "unsat", "timeout":
			return l
		}
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "canceled") {
			return "error: " + l
		}
	}
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type query struct {
	idx   int
	lin   bool // without nonlinear arithmetic
	ms    int  // soft timeout
	rl    int
	goals []*Goal
	res   func(ans string, ms int64)
}

// walk feeds the script to one solver process, asking the given queries (in
// index order).
func (v *VC) walk(acts string, qs []*query) error {
	var sl []*Goal
	for _, q := range qs {
		sl = append(sl, q.goals...)
	}
	keep := v.slice(sl)
	p, err := startProc("z3-new", "-in")
	if err != nil {
		return err
	}
	defer p.kill()
	p.send(z3opts + "(set-option :timeout 60000)")
	if len(qs) > 0 && qs[0].lin {
		p.send("(set-option :smt.arith.nl false)")
	}
	p.send(v.header())
	p.send(acts)
	qi := 0
	for i, it := range v.items {
		for qi < len(qs) && qs[qi].idx == i {
			q := qs[qi]
			qi++
			var ts []string
			for _, g := range q.goals {
				ts = append(ts, g.Term)
			}
			t := ts[0]
			if len(ts) > 1 {
				t = "(and " + strings.Join(ts, " ") + ")"
			}
			p.send("(push)")
			p.send(fmt.Sprintf("(set-option :rlimit %d)", q.rl))
			if q.ms > 0 {
				p.send(fmt.Sprintf("(set-option :timeout %d)", q.ms))
			}
			p.send("(assert (not " + t + "))")
			t0 := time.Now()
			ans := p.ask()
			q.res(ans, time.Since(t0).Milliseconds())
			if ans == "dead" {
				for ; qi < len(qs); qi++ {
					qs[qi].res("dead", 0)
				}
				return nil
			}
			p.send("(pop)")
		}
		if it.text != "" && keep[i] {
			p.send(it.text)
		}
		if qi >= len(qs) {
			break
		}
	}
	return nil
}

func (v *VC) acts() string {
	var b strings.Builder
	for _, c := range v.cands {
		if c.Dead {
			fmt.Fprintf(&b, "(assert (not %s))\n", c.Act)
		} else {
			fmt.Fprintf(&b, "(assert %s)\n", c.Act)
		}
	}
	return b.String()
}

// houdini removes candidate invariants until the rest is inductive.
func (v *VC) houdini(cfg *solveCfg, sem chan struct{}) (rounds, queries int, err error) {
	if len(v.cands) == 0 {
		return
	}
	for round := 0; round < 40; round++ {
		rounds++
		// candidate goals in index order, grouped when adjacent
		var gs []*Goal
		for _, it := range v.items {
			if it.goal != nil && it.goal.Cand != nil && !it.goal.Cand.Dead {
				gs = append(gs, it.goal)
			}
		}
		if len(gs) == 0 {
			return
		}
		var mu sync.Mutex
		dead := 0
		var again []*Goal
		mkq := func(g *Goal) *query {
			rl := cfg.candRL
			if g.Cand.FromUsr {
				rl = cfg.userRL
			}
			return &query{idx: g.idx, rl: rl, lin: !g.Cand.FromUsr, ms: 20000, goals: []*Goal{g}, res: func(a string, ms int64) {
				mu.Lock()
				defer mu.Unlock()
				queries++
				g.Ms = ms
				g.Status = a
				if (a == "limit" || a == "unknown") && g.Cand.FromUsr && !g.Cand.Dead && v.retries < 400 {
					v.retries++
					again = append(again, g)
					return
				}
				if a != "unsat" {
					if strings.HasPrefix(a, "error") {
						v.note("solver: %s", a)
						err = fmt.Errorf("%s", a)
					}
					if !g.Cand.Dead {
						g.Cand.Dead = true
						g.Cand.Why = fmt.Sprintf("round %d %s (%s)", round+1, g.Kind, a)
						dead++
					}
				}
			}}
		}
		var singles []*Goal
		if round > 0 {
			// batches first
			var batch [][]*Goal
			for _, g := range gs {
				n := len(batch)
				if n > 0 {
					l := batch[n-1]
					if l[len(l)-1].idx == g.idx-1 && len(l) < 25 {
						batch[n-1] = append(l, g)
						continue
					}
				}
				batch = append(batch, []*Goal{g})
			}
			var bq []*query
			for _, b := range batch {
				b := b
				bq = append(bq, &query{idx: b[0].idx, rl: cfg.candRL * 2, lin: true, ms: 3000, goals: b, res: func(a string, ms int64) {
					mu.Lock()
					defer mu.Unlock()
					queries++
					if a == "unsat" {
						for _, g := range b {
							g.Status, g.Ms = "unsat", ms/int64(len(b))
						}
						return
					}
					singles = append(singles, b...)
				}})
			}
			if e := v.parallel(cfg, sem, bq); e != nil {
				return rounds, queries, e
			}
		} else {
			singles = gs
		}
		if len(singles) > 0 {
			var qs []*query
			for _, g := range v.orderGoals(singles) {
				qs = append(qs, mkq(g))
			}
			if e := v.parallel(cfg, sem, qs); e != nil {
				return rounds, queries, e
			}
		}
		if err != nil {
			return
		}
		// template candidates that ran out of resources get a second chance
		// with fresh solvers
		var wg sync.WaitGroup
		for _, g := range again {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := v.retry(g, sem)
				mu.Lock()
				defer mu.Unlock()
				queries++
				if r {
					g.Status = "unsat"
				} else if !g.Cand.Dead {
					if d := os.Getenv("GOVER_DUMPCAND"); d != "" {
						os.WriteFile(filepath.Join(d, safeName(g.Cand.ID)+"."+g.Kind+".smt2"), []byte(v.script(g, z3opts, false)), 0o644)
					}
					g.Cand.Dead = true
					g.Cand.Why = fmt.Sprintf("round %d %s (limit)", round+1, g.Kind)
					dead++
				}
			}()
		}
		wg.Wait()
		if dead == 0 {
			return
		}
	}
	return
}

func (v *VC) retry(g *Goal, sem chan struct{}) bool {
	ctx, cancel := context.WithTimeout(context.Background(), 75*time.Second)
	defer cancel()
	ch := make(chan string, 4)
	run := func(bin string, args []string, opts string) {
		sem <- struct{}{}
		defer func() { <-sem }()
		if ctx.Err() != nil {
			ch <- "canceled"
			return
		}
		ch <- runSolver(ctx, bin, args, v.script(g, opts, false))
	}
	go run("z3-new", []string{"-in", "-T:7"}, z3opts)
	go run("cvc5", []string{"--lang=smt2", "--tlimit=8000"}, "(set-logic ALL)\n")
	go run("z3-new", []string{"-in", "-T:7"}, incremental+z3opts)
	n := 3
	if len(v.planted) > 0 {
		n++
		go run("z3-new", []string{"-in", "-T:7"}, noplant+z3opts)
	}
	for ; n > 0; n-- {
		if <-ch == "unsat" {
			return true
		}
	}
	return false
}

func (v *VC) orderGoals(gs []*Goal) []*Goal {
	m := map[*Goal]bool{}
	for _, g := range gs {
		m[g] = true
	}
	var out []*Goal
	for _, it := range v.items {
		if it.goal != nil && m[it.goal] {
			out = append(out, it.goal)
		}
	}
	return out
}

// parallel splits queries over several solver processes.
func (v *VC) parallel(cfg *solveCfg, sem chan struct{}, qs []*query) error {
	var lin, nl []*query
	for _, q := range qs {
		if q.lin {
			lin = append(lin, q)
		} else {
			nl = append(nl, q)
		}
	}
	if len(lin) > 0 && len(nl) > 0 {
		var e1 error
		done := make(chan bool)
		go func() { e1 = v.parallel(cfg, sem, lin); close(done) }()
		e2 := v.parallel(cfg, sem, nl)
		<-done
		if e1 != nil {
			return e1
		}
		return e2
	}
	// queries on the same path share a process and a slice
	v.itemInfos()
	byPath := map[string][]*query{}
	var keys []string
	for _, q := range qs {
		var ks []string
		for _, g := range q.goals {
			for _, t := range tokenize(g.Term) {
				if isR(t) {
					ks = append(ks, t)
				}
			}
		}
		k := strings.Join(uniq(ks), " ")
		if byPath[k] == nil {
			keys = append(keys, k)
		}
		byPath[k] = append(byPath[k], q)
	}
	per := len(qs)/cfg.workers + 1
	if per < 4 {
		per = 4
	}
	var chunks [][]*query
	for _, k := range keys {
		l := byPath[k]
		n := (len(l) + per - 1) / per
		cs := make([][]*query, n)
		for i, q := range l {
			cs[i%n] = append(cs[i%n], q)
		}
		chunks = append(chunks, cs...)
	}
	acts := v.acts()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	for _, mine := range chunks {
		mine := mine
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if err := v.walk(acts, mine); err != nil {
				mu.Lock()
				first = err
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return first
}

// noplant marks the solver options of the engines that see the planted terms
// (see plant) simplified away.
const noplant = "; noplant\n"

// incremental marks the options of the engines that run z3 without its
// preprocessing of the whole problem and with the other branching order.
const incremental = "; incremental\n(set-option :smt.phase_selection 1)\n"

func (v *VC) unplanted(h string) string {
	for n := range v.planted {
		srt := v.planted[n]
		h = strings.Replace(h, "(declare-fun "+n+" ("+srt+") Bool)", "(define-fun "+n+" ((x "+srt+")) Bool true)", 1)
		h = strings.Replace(h, "(assert (forall ((x "+srt+")) (! ("+n+" x) :pattern (("+n+" x)))))\n", "", 1)
	}
	return h
}

// script is the complete problem of one goal.
func (v *VC) script(g *Goal, opts string, full bool) string {
	var b strings.Builder
	keep := v.slice([]*Goal{g})
	b.WriteString(opts)
	h := v.header()
	if strings.HasPrefix(opts, noplant) {
		h = v.unplanted(h)
	}
	b.WriteString(h)
	b.WriteString(v.acts())
	for i := 0; i < g.idx; i++ {
		if v.items[i].text != "" && (full || keep[i] || os.Getenv("GOVER_FULL") != "") {
			b.WriteString(v.items[i].text)
			b.WriteByte('\n')
		}
	}
	b.WriteString("(assert (not " + g.Term + "))\n")
	if strings.HasPrefix(opts, incremental) {
		b.WriteString("(push)\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func runSolver(ctx context.Context, name string, args []string, script string) string {
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(script)
	out, _ := c.Output()
	s := strings.TrimSpace(string(out))
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error " + l
		}
	}
	if s == "" {
		return "timeout"
	}
	return s
}

// portfolio tries the installed solvers on one goal.
func (v *VC) portfolio(g *Goal, sec int, sem chan struct{}) {
	type eng struct {
		name string
		bin  string
		args []string
		opts string
		full bool
	}
	t := fmt.Sprint(sec)
	engs := []eng{
		{"z3-5.3.2", "z3-new", []string{"-in", "-T:" + t}, z3opts, false},
		{"z3-4.8.12", "z3", []string{"-in", "-T:" + t}, z3optsOld, false},
		{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", "--tlimit=" + t + "000"}, "(set-logic ALL)\n", false},
		{"z3-5.3.2/seed", "z3-new", []string{"-in", "-T:" + t, "smt.random_seed=7"}, z3opts + "(set-option :smt.relevancy 0)\n", false},
		{"z3-5.3.2/noplant", "z3-new", []string{"-in", "-T:" + t}, noplant + z3opts, false},
		{"z3-5.3.2/inc", "z3-new", []string{"-in", "-T:" + t}, incremental + z3opts, false},
		{"cvc5-1.1.2/enum", "cvc5", []string{"--lang=smt2", "--enum-inst", "--tlimit=" + t + "000"}, "(set-logic ALL)\n", false},
		{"z3-5.3.2/ext", "z3-new", []string{"-in", "-T:" + t}, z3opts + "(set-option :smt.array.extensional true)\n", true},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	type res struct{ n, a string }
	ch := make(chan res, len(engs))
	t0 := time.Now()
	for _, e := range engs {
		e := e
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			if ctx.Err() != nil {
				ch <- res{e.name, "canceled"}
				return
			}
			ch <- res{e.name, runSolver(ctx, e.bin, e.args, v.script(g, e.opts, e.full))}
		}()
	}
	var outs []string
	for range engs {
		r := <-ch
		if r.a == "unsat" {
			g.Status, g.Solver = "proved", r.n
			cancel()
			break
		}
		outs = append(outs, r.n+": "+r.a)
	}
	g.Ms += time.Since(t0).Milliseconds()
	if g.Status != "proved" {
		g.Status = "failed"
		g.Output = strings.Join(outs, "; ")
	}
}

// solveGoals decides the real goals.
func (v *VC) solveGoals(cfg *solveCfg, sem chan struct{}) error {
	var qs []*query
	var mu sync.Mutex
	var hard []*Goal
	var serr error
	for _, g := range v.goals {
		g := g
		if g.Status == "proved" {
			continue
		}
		if g.Term == "false" && !g.negate {
			g.Status, g.Output = "failed", "the obligation is false"
			continue
		}
		rl := cfg.goalRL
		if g.negate {
			rl = cfg.candRL
		}
		qs = append(qs, &query{idx: g.idx, rl: rl, ms: 20000, goals: []*Goal{g}, res: func(a string, ms int64) {
			mu.Lock()
			defer mu.Unlock()
			g.Ms += ms
			switch {
			case g.negate && a == "unsat":
				g.Status, g.Output = "failed", "the assumptions are contradictory"
			case g.negate:
				g.Status, g.Solver = "proved", "z3-5.3.2"
			case a == "unsat":
				g.Status, g.Solver = "proved", "z3-5.3.2"
			default:
				if strings.HasPrefix(a, "error") {
					serr = fmt.Errorf("%s: %s", g.ID, a)
				}
				g.Output = "z3-5.3.2 (incremental): " + a
				hard = append(hard, g)
			}
		}})
	}
	if err := v.parallel(cfg, sem, qs); err != nil {
		return err
	}
	if serr != nil {
		return serr
	}
	if len(hard) > 0 && cfg.finalSec > 0 {
		if len(hard) > 24 {
			for _, g := range hard[24:] {
				g.Status = "failed"
			}
			hard = hard[:24]
		}
		var wg sync.WaitGroup
		for _, g := range hard {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				v.portfolio(g, cfg.finalSec, sem)
			}()
		}
		wg.Wait()
	}
	for _, g := range v.goals {
		if g.Status == "" {
			g.Status = "failed"
		}
		if g.Status == "failed" && cfg.keepDir != "" {
			os.MkdirAll(cfg.keepDir, 0o755)
			os.WriteFile(filepath.Join(cfg.keepDir, safeName(g.ID)+".smt2"), []byte(v.script(g, z3opts, false)), 0o644)
		}
	}
	return nil
}

func safeName(s string) string {
	r := strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '-' || c == '_' {
			return c
		}
		return '_'
	}, s)
	if len(r) > 120 {
		r = r[:120]
	}
	return r
}
