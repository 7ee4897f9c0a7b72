package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unit struct {
	vc      *VC
	rounds  int
	queries int
	err     error
	ms      int64
}

type Result struct {
	Prop    string
	Units   []*unit
	Failed  []*Goal
	Trusted map[string]bool
	Wall    float64
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	contracts := flag.String("contracts", "/verif/contracts", "contract directory")
	only := flag.String("func", "", "verify only this function")
	verbose := flag.Bool("v", false, "print every obligation")
	keep := flag.String("keep", "", "directory for the scripts of failed obligations")
	jsonOut := flag.String("json", "", "write the result as JSON")
	dumpCands := flag.Bool("cands", false, "print candidate invariants")
	dump := flag.String("dump", "", "write scripts of all goals to this directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	trace := flag.Bool("trace", false, "print internal errors")
	flag.Parse()
	debugTrace = *trace
	t0 := time.Now()
	P, err := LoadProgram(*repo, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(2)
	}
	db, err := LoadContracts(P, *contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(2)
	}
	cfg := &solveCfg{workers: 8, candRL: 1500000, userRL: 8000000, goalRL: 8000000, finalSec: 25, keepDir: *keep}
	if *tier == "thorough" {
		cfg.candRL, cfg.userRL, cfg.goalRL, cfg.finalSec = 6000000, 30000000, 30000000, 90
	}
	r := checkProp(P, db, *prop, *only, cfg)
	r.Wall = time.Since(t0).Seconds()
	report(r, *verbose, *dumpCands)
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
		for _, u := range r.Units {
			for _, it := range u.vc.items {
				if g := it.goal; g != nil && g.Cand != nil && g.Cand.FromUsr {
					d := g.Cand.Dead
					g.Cand.Dead = false
					os.WriteFile(filepath.Join(*dump, safeName(u.vc.Name+"."+g.Cand.ID[:5]+"."+g.Kind)+".smt2"), []byte(u.vc.script(g, z3opts, false)), 0o644)
					g.Cand.Dead = d
				}
			}
			for _, g := range u.vc.goals {
				if g.idx > 0 || g.Status != "proved" {
					os.WriteFile(filepath.Join(*dump, safeName(g.ID)+".smt2"), []byte(u.vc.script(g, z3opts, false)), 0o644)
				}
			}
		}
	}
	if *jsonOut != "" {
		if err := writeJSON(r, *jsonOut, P); err != nil {
			fmt.Fprintln(os.Stderr, "gover:", err)
			os.Exit(2)
		}
	}
	for _, u := range r.Units {
		if u.err != nil {
			fmt.Fprintln(os.Stderr, "gover: solver:", u.vc.Name, u.err)
			os.Exit(2)
		}
	}
	if len(r.Failed) > 0 {
		os.Exit(1)
	}
}

// relevant: the contract states something about the property.
func relevant(ct *Contract, prop string) bool {
	if ct.Extern {
		return false
	}
	has := func(cs []*Clause) bool {
		for _, c := range cs {
			for _, l := range c.Labels {
				if l == prop {
					return true
				}
			}
		}
		return false
	}
	if has(ct.Ensures) || has(ct.Crash) || has(ct.Always) || has(ct.OnTick) || has(ct.Mods) {
		return true
	}
	for _, p := range strings.FieldsFunc(ct.Opts["props"], func(r rune) bool { return r == ',' || r == ' ' }) {
		if p == prop {
			return true
		}
	}
	return false
}

func checkProp(P *Program, db *DB, prop, only string, cfg *solveCfg) *Result {
	r := &Result{Prop: prop, Trusted: map[string]bool{}}
	sem := make(chan struct{}, 8)
	var todo []string
	done := map[string]bool{}
	for _, k := range db.Order {
		if only != "" {
			if k == only {
				todo = append(todo, k)
			}
			continue
		}
		if relevant(db.Contracts[k], prop) {
			todo = append(todo, k)
		}
	}
	if lockProp(prop) {
		for _, k := range guardTodo(P, db, prop) {
			if only == "" || only == k {
				todo = append(todo, k)
			}
		}
	}
	lemmas := map[string]*Lemma{}
	var lemTodo []*Lemma
	if only == "" {
		for _, l := range db.Lemmas {
			if !l.Axiom {
				for _, p := range l.Labels {
					if p == prop {
						lemmas[l.Name] = l
						lemTodo = append(lemTodo, l)
					}
				}
			}
		}
	}
	for len(todo) > 0 || len(lemTodo) > 0 {
		var us []*unit
		for _, k := range todo {
			if done[k] {
				continue
			}
			done[k] = true
			ct := db.Contracts[k]
			if ct == nil || ct.Extern || ct.Inline {
				continue
			}
			vc := verifyFunc(P, db, prop, ct)
			if err := vc.addLemmas(nil); err != nil {
				vc.goal(vc.newState(), "contract", err.Error(), nil, tFalse)
			}
			us = append(us, &unit{vc: vc})
		}
		for _, l := range lemTodo {
			us = append(us, &unit{vc: verifyLemma(P, db, prop, l)})
		}
		todo, lemTodo = nil, nil
		for _, u := range us {
			for _, k := range sortedKeys(u.vc.usedCtr) {
				if prop == ownProp || u.vc.TopC != nil && hasLabel(strings.Split(u.vc.TopC.Opts["callees"], ","), prop) {
					// only the locking is decided here
					if !done[k] && db.Contracts[k] != nil && !db.Contracts[k].Extern {
						u.vc.trusted["contract of "+k+" (verified by the checks of the properties it is stated for)"] = true
					}
				} else if !done[k] && only == "" {
					todo = append(todo, k)
				}
			}
			for _, n := range sortedKeys(u.vc.usedLemmas) {
				if lemmas[n] == nil {
					lemmas[n] = u.vc.usedLemmas[n]
					lemTodo = append(lemTodo, u.vc.usedLemmas[n])
				}
			}
		}
		var wg sync.WaitGroup
		for _, u := range us {
			u := u
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
				u.rounds, u.queries, u.err = u.vc.houdini(cfg, sem)
				if u.err == nil {
					u.err = u.vc.solveGoals(cfg, sem)
				}
				u.ms = time.Since(t0).Milliseconds()
			}()
		}
		wg.Wait()
		again(us, cfg, sem)
		r.Units = append(r.Units, us...)
	}
	for _, u := range r.Units {
		for _, g := range u.vc.goals {
			if g.Status != "proved" {
				r.Failed = append(r.Failed, g)
			}
		}
		for t := range u.vc.trusted {
			r.Trusted[t] = true
		}
	}
	return r
}

// again gives the functions whose proof was not found a second attempt, one
// at a time (the first one shares the processors with other functions) and
// with larger limits.
func again(us []*unit, cfg *solveCfg, sem chan struct{}) {
	var bad []*unit
	for _, u := range us {
		n, wrong := 0, false
		for _, g := range u.vc.goals {
			if g.Status != "proved" {
				n++
				wrong = wrong || g.negate || g.Term == "false"
			}
		}
		if n > 0 && !wrong && u.err == nil {
			bad = append(bad, u)
		}
	}
	if len(bad) == 0 || len(bad) > 2 {
		return
	}
	c := *cfg
	c.userRL, c.goalRL = cfg.userRL*2, cfg.goalRL*2
	for _, u := range bad {
		if u.ms > 150000 {
			continue
		}
		t0 := time.Now()
		for _, x := range u.vc.cands {
			x.Dead, x.Why = false, ""
		}
		for _, it := range u.vc.items {
			if it.goal != nil {
				it.goal.Status, it.goal.Output = "", ""
			}
		}
		u.vc.retries = 0
		r, q, err := u.vc.houdini(&c, sem)
		if err == nil {
			err = u.vc.solveGoals(&c, sem)
		}
		u.rounds, u.queries, u.err = u.rounds+r, u.queries+q, err
		u.ms += time.Since(t0).Milliseconds()
	}
}

// guardTodo lists every exported function that touches a guarded field. The
// ones without a contract get one that states nothing but the locking.
func guardTodo(P *Program, db *DB, prop string) (out []string) {
	touches := func(fn *ssa.Function) bool {
		vis := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if vis[f] {
				return false
			}
			vis[f] = true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var t types.Type
					fi := -1
					switch x := i.(type) {
					case *ssa.FieldAddr:
						t, fi = x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field
					case *ssa.Field:
						t, fi = x.X.Type(), x.Field
					case ssa.CallInstruction:
						if c := x.Common().StaticCallee(); c != nil {
							if o := c.Origin(); o != nil {
								c = o
							}
							if isRepoFn(c) && !ast.IsExported(c.Name()) && walk(c) {
								return true
							}
						}
						continue
					default:
						continue
					}
					s, ok := t.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					k := typeKey(t)
					if j := strings.IndexByte(k, '['); j >= 0 {
						k = k[:j]
					}
					for _, g := range db.Guards {
						if g.Prop == prop && g.Type == k && g.Field == s.Field(fi).Name() {
							return true
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				if walk(a) {
					return true
				}
			}
			return false
		}
		return walk(fn)
	}
	if prop == ownProp {
		// request handlers: they share no variable but the index and the search
		for _, k := range db.Order {
			if ct := db.Contracts[k]; strings.HasPrefix(k, routePrefix) {
				ct.only(prop)
				out = append(out, k)
			}
		}
	}
	if prop == ownProp {
		for _, k := range backgroundFns(P, db) {
			ct := &Contract{Key: k, Noframe: true, NoReturn: true, Background: true, Opts: map[string]string{"guardonly": "1"}}
			for i := range P.Funcs[k].Params {
				ct.Params = append(ct.Params, fmt.Sprintf("arg%d", i))
			}
			db.Contracts[k] = ct
			db.Order = append(db.Order, k)
			out = append(out, k)
		}
	}
	for _, k := range sortedKeys(P.Funcs) {
		fn := P.Funcs[k]
		if !isRepoFn(fn) || fn.Synthetic != "" || fn.Parent() != nil || len(fn.Blocks) == 0 || !ast.IsExported(fn.Name()) {
			continue
		}
		// C26: every operation of a type that owns a lock; C12: whatever touches a guarded field
		if prop == ownProp && !ownerMethod(db, fn) && !sharedMethod(fn) || prop != ownProp && !touches(fn) {
			continue
		}
		if prop == ownProp && db.Contracts[k] != nil {
			db.Contracts[k].only(prop)
		}
		if db.Contracts[k] == nil {
			ct := &Contract{Key: k, Noframe: true, Opts: map[string]string{"guardonly": "1"}}
			for i := range fn.Params {
				ct.Params = append(ct.Params, fmt.Sprintf("arg%d", i))
			}
			db.Contracts[k] = ct
			db.Order = append(db.Order, k)
		}
		out = append(out, k)
	}
	return out
}

// backgroundFns lists the functions without a contract that are started as
// goroutines and run beside everything else.
func backgroundFns(P *Program, db *DB) (out []string) {
	for _, k := range sortedKeys(P.Funcs) {
		fn := P.Funcs[k]
		if !isRepoFn(fn) || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				if f := closureFn(g.Call.Value, 0); f != nil && isRepoFn(f) && db.Contracts[funcKey(f)] == nil && isBackground(f) {
					P.Funcs[funcKey(f)] = f
					out = append(out, funcKey(f))
				}
			}
		}
	}
	return out
}

// sharedMethod: an operation of the objects all requests share.
func sharedMethod(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	switch p[strings.LastIndexByte(p, '/')+1:] {
	case "index", "search":
		return fn.Signature.Recv() != nil
	case "similarity", "metric", "tokenizer", "filter", "language":
		return true
	}
	return false
}

func ownerMethod(db *DB, fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	p, ok := r.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	for _, g := range db.Guards {
		if g.Prop == ownProp && g.Type == typeKey(p.Elem()) {
			return true
		}
	}
	return false
}

// only keeps what a contract states under a label of the property.
func (ct *Contract) only(prop string) {
	keep := func(cs []*Clause) (out []*Clause) {
		for _, c := range cs {
			if hasLabel(c.Labels, prop) {
				out = append(out, c)
			}
		}
		return out
	}
	ct.Requires, ct.Ensures, ct.Invs, ct.Hints = keep(ct.Requires), keep(ct.Ensures), keep(ct.Invs), keep(ct.Hints)
	ct.Crash, ct.Mods, ct.MayPanic, ct.Repeats = nil, nil, nil, nil
	ct.Noframe = true
	ct.Opts = map[string]string{"guardonly": "1"}
}

func report(r *Result, verbose, cands bool) {
	n, ok := 0, 0
	for _, u := range r.Units {
		un, uok := 0, 0
		for _, g := range u.vc.goals {
			un++
			if g.Status == "proved" {
				uok++
			}
		}
		n += un
		ok += uok
		alive := 0
		for _, c := range u.vc.cands {
			if !c.Dead {
				alive++
			}
		}
		fmt.Printf("%-60s %3d/%3d obligations, invariants %d/%d, houdini %d rounds %d queries, %d ms\n", u.vc.Name, uok, un, alive, len(u.vc.cands), u.rounds, u.queries, u.ms)
		if cands {
			for _, c := range u.vc.cands {
				s := "kept"
				if c.Dead {
					s = "dropped " + c.Why
				}
				fmt.Printf("    [%s] %s\n", s, c.ID)
			}
			for _, n := range u.vc.notes {
				fmt.Println("    note:", n)
			}
		}
		for _, g := range u.vc.goals {
			if verbose || g.Status != "proved" {
				fmt.Printf("  %-7s %s  (%s) [%s] %d ms %s\n", g.Status, g.ID, g.Pos, strings.Join(g.Props, ","), g.Ms, g.Output)
			}
		}
	}
	fmt.Printf("property %s: %d/%d obligations discharged\n", r.Prop, ok, n)
}

type jsonGoal struct {
	ID, Func, Kind, Pos, Status, Solver, Output string
	Ms                                          int64
}

func writeJSON(r *Result, path string, P *Program) error {
	type unitJ struct {
		Func       string
		Goals      []jsonGoal
		Invariants []string
		Proved     int
		Total      int
		Ms         int64
		Queries    int
		Inlined    []string
		Notes      []string
		Unsup      []string
	}
	type out struct {
		Prop    string
		Units   []unitJ
		Trusted []string
		Natives []string
		DictStr []string
		DictInt []int64
		Wall    float64
		InvObl  int
	}
	o := out{Prop: r.Prop, Wall: r.Wall}
	ds, di, nat := map[string]bool{}, map[int64]bool{}, map[string]bool{}
	for _, u := range r.Units {
		uj := unitJ{Func: u.vc.Name, Ms: u.ms, Queries: u.queries, Notes: u.vc.notes, Unsup: u.vc.unsup, Inlined: sortedKeys(u.vc.inlined)}
		for _, g := range u.vc.goals {
			uj.Total++
			if g.Status == "proved" {
				uj.Proved++
			}
			uj.Goals = append(uj.Goals, jsonGoal{g.ID, g.Func, g.Kind, g.Pos, g.Status, g.Solver, g.Output, g.Ms})
		}
		for _, c := range u.vc.cands {
			if !c.Dead {
				uj.Invariants = append(uj.Invariants, c.Desc)
				o.InvObl += len(c.Goals)
			}
		}
		for s := range u.vc.dictStr {
			ds[s] = true
		}
		for n := range u.vc.dictInt {
			di[n] = true
		}
		for n := range u.vc.natives {
			nat[n] = true
		}
		o.Units = append(o.Units, uj)
	}
	o.Trusted = sortedKeys(r.Trusted)
	o.Natives = sortedKeys(nat)
	o.DictStr = sortedKeys(ds)
	for n := range di {
		o.DictInt = append(o.DictInt, n)
	}
	sort.Slice(o.DictInt, func(i, j int) bool { return o.DictInt[i] < o.DictInt[j] })
	b, err := json.MarshalIndent(o, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
