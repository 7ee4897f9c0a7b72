package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
)

// verifyFunc generates the obligations of one contracted function.
func verifyFunc(P *Program, db *DB, prop string, ct *Contract) (vc *VC) {
	vc = NewVC(P, db, prop, ct.Key)
	vc.TopC = ct
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if se, ok := r.(specErr); ok {
				msg = se.msg
			}
			if debugTrace {
				fmt.Println(msg)
				debug.PrintStack()
			}
			vc.dry, vc.noDef = 0, 0
			st := vc.newState()
			vc.items = nil
			vc.cands = nil
			vc.goals = nil
			vc.unsup = append(vc.unsup, "verifier: "+msg)
			vc.goal(st, "unsupported", "verifier: "+firstLine(msg), nil, tFalse)
		}
	}()
	fn := P.Funcs[ct.Key]
	if strings.HasPrefix(ct.Key, routePrefix) {
		var err error
		if fn, err = P.handler(ct.Key); err != nil {
			st := vc.newState()
			vc.unsup = append(vc.unsup, err.Error())
			vc.goal(st, "missing", err.Error(), nil, tFalse)
			return vc
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		st := vc.newState()
		vc.unsup = append(vc.unsup, "function "+ct.Key+" not found")
		vc.goal(st, "missing", "function "+ct.Key+" not found in the source", nil, tFalse)
		return vc
	}
	st := vc.newState()
	vc.posHint = fn.Pos()
	fr := vc.newFrame(fn, nil)
	var args []Val
	for i, p := range fn.Params {
		n := fmt.Sprintf("p!%s", p.Name())
		if p.Name() == "_" || p.Name() == "" {
			n = fmt.Sprintf("p!arg%d", i)
		}
		t := fr.typ(p.Type())
		c := vc.constant(n, vc.sortOf(t))
		w := vc.valWF(c, t, vc.initAl)
		if w.S != "true" {
			vc.raw(w, "wf")
		}
		a := Val{T: c, Typ: t}
		args = append(args, a)
		fr.env[p] = a
	}
	if len(ct.Params) != len(args) {
		vc.goal(st, "missing", fmt.Sprintf("%s has %d parameters, its contract %d", ct.Key, len(args), len(ct.Params)), nil, tFalse)
		return vc
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil {
		if g := fn.Pkg.Var("init$guard"); g != nil {
			vc.raw(tNot(vc.getH(st, vc.globalHeap(g))), "first run of the initializer")
		}
	}
	if strings.HasPrefix(ct.Key, routePrefix) || ct.Background {
		fr.captured(st)
	}
	fr.setOwner(args)
	vc.entry = st.clone()
	tps := map[string]types.Type{}
	for _, l := range []*types.TypeParamList{fn.Signature.RecvTypeParams(), fn.Signature.TypeParams()} {
		for i := 0; i < l.Len(); i++ {
			tps[l.At(i).Obj().Name()] = l.At(i)
		}
	}
	vc.TopEnv = vc.contractEnv(ct, args, st, vc.entry, tps)
	for _, c := range ct.Requires {
		if !vc.want(c) {
			continue
		}
		t, err := vc.TopEnv.Bool(c.E)
		if err != nil {
			vc.specError(st, ct.Key, err)
			continue
		}
		vc.raw(t, "requires")
	}
	for _, c := range ct.LangRules {
		t, err := vc.TopEnv.Bool(c.E)
		if err != nil {
			vc.specError(st, ct.Key, err)
			continue
		}
		vc.raw(t, "language rule")
		vc.trusted["language rule: "+c.Src] = true
	}
	if !ct.Noframe {
		for _, m := range ct.Mods {
			if !vc.want(m) {
				continue
			}
			rs, err := vc.TopEnv.regions(m)
			if err != nil {
				vc.specError(st, ct.Key, err)
				continue
			}
			for _, r := range rs {
				vc.topRegions[r.Heap] = append(vc.topRegions[r.Heap], r)
			}
		}
	}
	fr.crashCheck(st, "at entry")
	out, rv := fr.runBody(st)
	vc.posHint = fn.Pos()
	if out == nil {
		vc.note("never returns")
		if len(ct.Always)+len(ct.OnTick) == 0 && !ct.NoReturn {
			vc.goal(vc.newState(), "reach", "the function never returns", nil, tFalse)
		}
		return vc
	}
	env := vc.TopEnv.at(out)
	env.old = vc.entry
	vars := map[string]Val{}
	rs := []Val{rv}
	if fn.Signature.Results().Len() == 0 {
		rs = nil
	} else if fn.Signature.Results().Len() > 1 {
		rs = rv.Tup
	}
	for i, n := range ct.Results {
		if i < len(rs) {
			x := rs[i]
			x.Typ = fr.typ(fn.Signature.Results().At(i).Type())
			vars[n] = x
		}
	}
	env = env.with(vars)
	for _, c := range ct.Hints {
		if !vc.want(c) || len(c.Roles) > 0 {
			continue
		}
		t, err := env.Bool(c.E)
		if err != nil {
			vc.specError(out, ct.Key, err)
			continue
		}
		vc.goal(out, "hint", clauseName(c), c.Labels, t)
	}
	for _, c := range ct.Ensures {
		if !vc.want(c) {
			continue
		}
		t, err := env.Bool(c.E)
		if err != nil {
			vc.specError(out, ct.Key, err)
			continue
		}
		vc.goal(out, "post", clauseName(c), c.Labels, t)
	}
	// repeats: a second run from the same state gives the same results
	if ct.Repeats != nil && vc.want(ct.Repeats) && len(rs) > 0 {
		f2 := vc.newFrame(fn, nil)
		for i, p := range fn.Params {
			f2.env[p] = args[i]
		}
		if o2, r2 := f2.runBody(vc.entry.clone()); o2 != nil {
			rs2 := []Val{r2}
			if len(rs) > 1 {
				rs2 = r2.Tup
			}
			both := out.clone()
			both.reach = tAnd(out.reach, o2.reach)
			var eqs []Term
			for i := range rs {
				a, b := vc.asTerm(out, rs[i]), vc.asTerm(o2, rs2[i])
				if !a.ok() || !b.ok() {
					eqs = append(eqs, tFalse)
					continue
				}
				eqs = append(eqs, tEq(a, b))
			}
			vc.goal(both, "post", "repeated with the same result", ct.Repeats.Labels, tAnd(eqs...))
		}
	}
	if !ct.Noframe {
		var hs []string
		for h := range out.heap {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			if h == "alloc" || strings.HasPrefix(h, "K!") || h == "X!given" {
				continue
			}
			old, nw := vc.initHeap(h), out.heap[h]
			if old.S == nw.S {
				continue
			}
			regs := vc.topRegions[h]
			s := vc.heapS[h]
			if !isArray(s) || strings.HasPrefix(h, "G!") {
				whole := false
				for _, r := range regs {
					if r.Cond == nil {
						whole = true
					}
				}
				if !whole {
					vc.goal(out, "frame", h+" unchanged", nil, tEq(old, nw))
				}
				continue
			}
			ks, _ := splitArray(s)
			lim := vc.initAl
			if strings.HasPrefix(h, "X!") && !ghostOfRef(vc, h) {
				lim = Term{}
			}
			vc.goal(out, "frame", "only the declared part of "+h+" changes", nil, vc.frameTerm(h, ks, old, nw, regs, lim))
		}
	}
	for k := range vc.lateAddrs {
		vc.unsupported(out, "address of a field of type "+k+" taken after reads through other pointers to it")
	}
	// results do not share memory with the store
	if vc.owner != nil && vc.owner.own != nil && ast.IsExported(fn.Name()) {
		for i, r := range rs {
			t := fn.Signature.Results().At(i).Type()
			if !hasRefs(t, 0) {
				continue
			}
			v := vc.asTerm(out, r)
			if !v.ok() {
				vc.unsupported(out, "result that is not modelled")
				continue
			}
			vc.goal(out, "guard", fmt.Sprintf("result %d shares no memory with the store", i), []string{ownProp}, vc.private(out, v, t, 0))
		}
	}
	// locks are released
	if t, ok := out.heap[kLock]; ok {
		vc.goal(out, "guard", "locks are released", lockProps, tEq(t, vc.initHeap(kLock)))
	}
	// reachability of the exit (vacuity)
	if vc.dry == 0 {
		g := &Goal{Func: vc.Name, ID: vc.goalID(vc.Name + "/reach/exit"), Kind: "reach", Term: tNot(out.reach).S, negate: true}
		g.idx = len(vc.items)
		vc.items = append(vc.items, item{goal: g})
		vc.goals = append(vc.goals, g)
	}
	return vc
}

func ghostOfRef(vc *VC, h string) bool {
	n := strings.TrimPrefix(h, "X!")
	for _, gs := range vc.DB.GhostOf {
		for _, g := range gs {
			if g == n {
				return true
			}
		}
	}
	return false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var debugTrace bool

// verifyLemma generates the obligation of a lemma.
func verifyLemma(P *Program, db *DB, prop string, l *Lemma) *VC {
	vc := NewVC(P, db, prop, "lemma "+l.Name)
	st := vc.newState()
	vc.entry = st
	fail := func(err error) *VC {
		vc.unsup = append(vc.unsup, err.Error())
		vc.goal(st, "contract", "lemma "+l.Name+": "+err.Error(), nil, tFalse)
		return vc
	}
	e := &SpecEnv{vc: vc, vars: map[string]Val{}, st: st, lets: map[string]*Expr{}}
	for _, q := range l.Vars {
		t, err := db.resolveType(q.Typ, nil)
		if err != nil {
			return fail(err)
		}
		c := vc.constant("l!"+q.Name, vc.sortOf(t))
		e.vars[q.Name] = Val{T: c, Typ: t}
	}
	if l.Induct != "" {
		// assume the statement for smaller values of the induction variable
		iv, ok := e.vars[l.Induct]
		if !ok {
			return fail(fmt.Errorf("no variable %s", l.Induct))
		}
		guard := &Expr{Op: "&&", Args: []*Expr{
			{Op: "<=", Args: []*Expr{{Op: "int", Name: "0"}, {Op: "id", Name: l.Induct}}},
			{Op: "<", Args: []*Expr{{Op: "id", Name: l.Induct}, {Op: "id", Name: "$ind"}}}}}
		ih := &Expr{Op: "forall", Vars: l.Vars, Pats: l.Pats, Args: []*Expr{{Op: "==>", Args: []*Expr{guard, l.E}}}}
		t, err := e.with(map[string]Val{"$ind": iv}).Bool(ih)
		if err != nil {
			return fail(err)
		}
		if l.Limited {
			t = vc.limitedTerm(t)
		}
		vc.raw(t, "induction hypothesis")
		if iv.T.Sort == "Int" {
			pv := Val{T: vc.plus(iv.T, -1), Typ: iv.Typ}
			pe := e.with(map[string]Val{l.Induct: pv})
			if b, err := pe.Bool(l.E); err == nil {
				vc.raw(tImp(app("Bool", "<=", tInt(1), iv.T), b), "induction hypothesis")
			}
		}
	}
	t, err := e.Bool(l.E)
	if err != nil {
		return fail(err)
	}
	vc.goal(st, "lemma", l.Name, l.Labels, t)
	if err := vc.addLemmas(l); err != nil {
		return fail(err)
	}
	return vc
}
