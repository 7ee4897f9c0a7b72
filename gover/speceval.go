package main

import (
	"math"
	"math/big"
	"strconv"

	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"
)

// SpecEnv evaluates specification expressions.
type SpecEnv struct {
	vc      *VC
	st      *State // current state
	old     *State // pre-state
	now     *State // inside old(): the state outside
	loop    *State // state at loop entry
	vars    map[string]Val
	tsub    map[string]types.Type
	lets    map[string]*Expr
	depth   int
	noState bool
}

type specErr struct{ msg string }

func (e *SpecEnv) fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *SpecEnv) with(vars map[string]Val) *SpecEnv {
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (e *SpecEnv) at(st *State) *SpecEnv {
	n := *e
	n.st = st
	return &n
}

func (e *SpecEnv) past(st *State) *SpecEnv {
	n := e.at(st)
	if n.now == nil {
		n.now = e.st
	}
	return n
}

// Bool evaluates a formula.
func (e *SpecEnv) Bool(x *Expr) (t Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in %s)", se.msg, x.Src)
				return
			}
			panic(r)
		}
	}()
	return e.b(x), nil
}

func (e *SpecEnv) Value(x *Expr) (t Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in %s)", se.msg, x.Src)
				return
			}
			panic(r)
		}
	}()
	return e.v(x), nil
}

func (e *SpecEnv) b(x *Expr) Term {
	v := e.v(x)
	t := e.term(v)
	if t.Sort != "Bool" {
		e.fail("boolean expected, got %s : %s", t.S, t.Sort)
	}
	return t
}

func (e *SpecEnv) term(v Val) Term {
	t := e.vc.asTerm(e.st, v)
	if !t.ok() {
		e.fail("value has no term")
	}
	return t
}

func (e *SpecEnv) typ(te *TypeExpr) types.Type {
	t, err := e.vc.DB.resolveType(te, e.tsub)
	if err != nil {
		e.fail("%v", err)
	}
	return t
}

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var strT = types.Typ[types.String]
var realT = types.Typ[types.Float64]

func (e *SpecEnv) pair(a, b *Expr) (Term, Term, types.Type) {
	if a.Op == "id" && a.Name == "nil" {
		y := e.v(b)
		if y.Typ == nil {
			e.fail("nil with untyped operand")
		}
		return e.vc.zero(y.Typ), e.term(y), y.Typ
	}
	if b.Op == "id" && b.Name == "nil" {
		x := e.v(a)
		if x.Typ == nil {
			e.fail("nil with untyped operand")
		}
		return e.term(x), e.vc.zero(x.Typ), x.Typ
	}
	x, y := e.v(a), e.v(b)
	t, u := e.term(x), e.term(y)
	if t.Sort == "Real" && u.Sort == "Int" {
		u = toReal(u)
	}
	if t.Sort == "Int" && u.Sort == "Real" {
		t = toReal(t)
	}
	return t, u, x.Typ
}

func toReal(t Term) Term {
	if n, err := strconv.ParseInt(t.S, 10, 64); err == nil {
		return Term{fmt.Sprintf("%d.0", n), "Real"}
	}
	return app("Real", "to_real", t)
}

func (e *SpecEnv) v(x *Expr) Val {
	e.depth++
	if e.depth > 4000 {
		e.fail("expression too deep")
	}
	vc := e.vc
	switch x.Op {
	case "int":
		return Val{T: Term{x.Name, "Int"}, Typ: intT}
	case "real":
		return Val{T: Term{x.Name, "Real"}, Typ: realT}
	case "str":
		s, err := strconv.Unquote(x.Name)
		if err != nil {
			e.fail("bad string %s", x.Name)
		}
		return Val{T: vc.strLit(s), Typ: strT}
	case "id":
		return e.ident(x.Name)
	case "!":
		return Val{T: tNot(e.b(x.Args[0])), Typ: boolT}
	case "neg":
		t := e.term(e.v(x.Args[0]))
		return Val{T: app(t.Sort, "-", t), Typ: intT}
	case "&&":
		return Val{T: tAnd(e.b(x.Args[0]), e.b(x.Args[1])), Typ: boolT}
	case "||":
		return Val{T: tOr(e.b(x.Args[0]), e.b(x.Args[1])), Typ: boolT}
	case "==>":
		a := e.b(x.Args[0])
		if a.S == "false" {
			return Val{T: tTrue, Typ: boolT}
		}
		return Val{T: tImp(a, e.b(x.Args[1])), Typ: boolT}
	case "<==>":
		return Val{T: tEq(e.b(x.Args[0]), e.b(x.Args[1])), Typ: boolT}
	case "ite":
		c := e.b(x.Args[0])
		a, b, t := e.pair(x.Args[1], x.Args[2])
		return Val{T: tIte(c, a, b), Typ: t}
	case "==", "!=":
		a, b, _ := e.pair(x.Args[0], x.Args[1])
		if a.Sort != b.Sort {
			e.fail("comparing %s : %s with %s : %s", a.S, a.Sort, b.S, b.Sort)
		}
		r := tEq(a, b)
		if x.Op == "!=" {
			r = tNot(r)
		}
		return Val{T: r, Typ: boolT}
	case "<", "<=", ">", ">=":
		a, b, _ := e.pair(x.Args[0], x.Args[1])
		if a.Sort != b.Sort || a.Sort != "Int" && a.Sort != "Real" {
			e.fail("ordering %s : %s and %s : %s", a.S, a.Sort, b.S, b.Sort)
		}
		return Val{T: app("Bool", x.Op, a, b), Typ: boolT}
	case "+", "-", "*", "/", "%":
		a, b, t := e.pair(x.Args[0], x.Args[1])
		if a.Sort != b.Sort {
			e.fail("arithmetic on %s and %s", a.Sort, b.Sort)
		}
		if a.Sort == "Str" && x.Op == "+" {
			return Val{T: vc.scat(a, b), Typ: strT}
		}
		op := x.Op
		if a.Sort == "Int" {
			if op == "/" {
				op = "div"
			} else if op == "%" {
				op = "mod"
			}
		}
		if x.Op == "+" && a.Sort == "Int" {
			if n, err := strconv.ParseInt(b.S, 10, 64); err == nil {
				return Val{T: vc.plus(a, n), Typ: t}
			}
		}
		if a.Sort == "Real" {
			t = realT
		}
		return Val{T: app(a.Sort, op, a, b), Typ: t}
	case "in":
		c := e.v(x.Args[1])
		k := e.v(x.Args[0])
		if c.Typ == nil {
			e.fail("in: untyped container")
		}
		switch u := under(c.Typ).(type) {
		case *types.Map:
			return Val{T: tSel(vc.mapDom(e.st, u, e.term(c)), e.term(k)), Typ: boolT}
		case *specType:
			return Val{T: tSel(e.term(c), e.term(k)), Typ: boolT}
		}
		e.fail("in: %s is not a map or set", c.Typ)
	case "idx":
		c := e.v(x.Args[0])
		i := e.term(e.v(x.Args[1]))
		return e.index(c, i)
	case "store":
		c := e.v(x.Args[0])
		i := e.term(e.v(x.Args[1]))
		y := e.term(e.v(x.Args[2]))
		return Val{T: tStore(e.term(c), i, y), Typ: c.Typ}
	case "slice":
		c := e.v(x.Args[0])
		t := e.term(c)
		lo := tInt(0)
		if x.Args[1] != nil {
			lo = e.term(e.v(x.Args[1]))
		}
		hi := sLen(t)
		if x.Args[2] != nil {
			hi = e.term(e.v(x.Args[2]))
		}
		return Val{T: mkSlice(sArr(t), tIxOff(sOff(t), lo), tSub(hi, lo), tSub(sCap(t), lo)), Typ: c.Typ}
	case "sel":
		return e.sel(x)
	case "deref":
		p := e.v(x.Args[0])
		if p.Typ == nil {
			e.fail("deref of untyped value")
		}
		if _, ok := under(p.Typ).(*types.Pointer); !ok {
			e.fail("deref of %s", p.Typ)
		}
		return vc.load(e.st, p)
	case "addr":
		y := x.Args[0]
		if y.Op == "sel" {
			p := e.v(y.Args[0])
			pt, ok := under(p.Typ).(*types.Pointer)
			if !ok {
				e.fail("& of a field of a non-pointer")
			}
			path := e.fieldPath(pt.Elem(), y.Name)
			if path == nil {
				e.fail("no field %s", y.Name)
			}
			cur := p
			var l *Lval
			t := pt.Elem()
			for _, i := range path {
				l = vc.fieldAddr(cur, t, i)
				t = l.T
				cur = Val{L: l, Typ: types.NewPointer(t)}
			}
			return cur
		}
		e.fail("& of %s", y.Op)
	case "tassert":
		c := e.v(x.Args[0])
		t := e.typ(x.Typ)
		return Val{T: vc.unbox(e.term(c), t), Typ: t}
	case "forall", "exists":
		return e.quant(x)
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s", x.Op)
	return Val{}
}

func (e *SpecEnv) index(c Val, i Term) Val {
	vc := e.vc
	if c.Typ == nil {
		e.fail("index of untyped value")
	}
	switch u := under(c.Typ).(type) {
	case *types.Map:
		return Val{T: tSel(vc.mapVals(e.st, u, e.term(c)), i), Typ: u.Elem()}
	case *types.Slice:
		t := e.term(c)
		h := vc.elemHeap(u.Elem())
		return Val{T: tSel(tSel(vc.getH(e.st, h), sArr(t)), tIx(sOff(t), i)), Typ: u.Elem()}
	case *specType:
		t := e.term(c)
		if !isArray(t.Sort) {
			e.fail("index of %s", t.Sort)
		}
		ks, _ := splitArray(t.Sort)
		if ks != i.Sort {
			e.fail("index sort %s, want %s", i.Sort, ks)
		}
		return Val{T: tSel(t, i), Typ: u.elem}
	}
	e.fail("index of %s", c.Typ)
	return Val{}
}

func (e *SpecEnv) fieldPath(t types.Type, name string) []int {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		// unexported fields need the package
		for _, p := range e.vc.P.TPkgs {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == p {
				obj, idx, _ = types.LookupFieldOrMethod(t, true, p, name)
			}
		}
	}
	if v, ok := obj.(*types.Var); !ok || !v.IsField() {
		return nil
	}
	return idx
}

func (e *SpecEnv) sel(x *Expr) Val {
	vc := e.vc
	// package-qualified constant or variable
	if x.Args[0].Op == "id" {
		n := x.Args[0].Name
		if _, isVar := e.vars[n]; !isVar && e.lets[n] == nil {
			if v, ok := e.pkgMember(n, x.Name); ok {
				return v
			}
		}
	}
	c := e.v(x.Args[0])
	if c.Typ == nil {
		e.fail("selector %s of untyped value", x.Name)
	}
	t := c.Typ
	cur := c
	if pt, ok := under(t).(*types.Pointer); ok {
		path := e.fieldPath(pt.Elem(), x.Name)
		if path == nil {
			e.fail("%s has no field %s", pt.Elem(), x.Name)
		}
		st := pt.Elem()
		for _, i := range path {
			if p2, ok := under(st).(*types.Pointer); ok {
				cur = vc.load(e.st, cur)
				st = p2.Elem()
			}
			l := vc.fieldAddr(cur, st, i)
			st = l.T
			cur = Val{L: l, Typ: types.NewPointer(st)}
		}
		return vc.load(e.st, cur)
	}
	if _, ok := under(t).(*types.Struct); ok {
		path := e.fieldPath(t, x.Name)
		if path == nil {
			e.fail("%s has no field %s", t, x.Name)
		}
		term := e.term(c)
		for _, i := range path {
			si := vc.structOf(t)
			term = si.sel(term, i)
			t = si.T.Field(i).Type()
		}
		return Val{T: term, Typ: t}
	}
	e.fail("selector %s of %s", x.Name, t)
	return Val{}
}

func (e *SpecEnv) pkgMember(pk, name string) (Val, bool) {
	vc := e.vc
	for _, p := range vc.P.byName[pk] {
		o := p.Scope().Lookup(name)
		switch o := o.(type) {
		case *types.Const:
			return vc.constVal(o.Val(), o.Type()), true
		case *types.Var:
			sp := vc.P.Prog.Package(p)
			if sp == nil {
				return Val{}, false
			}
			g := sp.Var(name)
			if g == nil {
				return Val{}, false
			}
			h := vc.globalHeap(g)
			return Val{T: vc.getH(e.st, h), Typ: o.Type()}, true
		}
	}
	return Val{}, false
}

func (v *VC) constVal(c constant.Value, t types.Type) Val {
	s := v.sortOf(t)
	switch s {
	case "Bool":
		if constant.BoolVal(c) {
			return Val{T: tTrue, Typ: t}
		}
		return Val{T: tFalse, Typ: t}
	case "Int":
		c = constant.ToInt(c)
		if n, ok := constant.Int64Val(c); ok {
			if n > 1 || n < -1 {
				v.dictInt[n] = true
			}
			return Val{T: tInt(n), Typ: t}
		}
		return Val{T: Term{c.ExactString(), "Int"}, Typ: t}
	case "Real":
		c = constant.ToFloat(c)
		// the decimal the source wrote, not its float64 neighbour
		if f, _ := constant.Float64Val(c); !math.IsInf(f, 0) {
			if r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
				c = constant.ToFloat(constant.Make(r))
			}
		}
		n, d := constant.Num(c), constant.Denom(c)
		neg := constant.Sign(n) < 0
		if neg {
			n = constant.UnaryOp(0x0d, n, 0) // token.SUB
		}
		s := n.ExactString() + ".0"
		if d.ExactString() != "1" {
			s = "(/ " + n.ExactString() + ".0 " + d.ExactString() + ".0)"
		}
		if neg {
			s = "(- " + s + ")"
		}
		return Val{T: Term{s, "Real"}, Typ: t}
	case "Str":
		return Val{T: v.strLit(constant.StringVal(c)), Typ: t}
	case "Iface":
		return Val{T: Term{"nilIface", "Iface"}, Typ: t}
	}
	return Val{Bad: "constant " + c.String(), Typ: t}
}

func (e *SpecEnv) ident(n string) Val {
	if v, ok := e.vars[n]; ok {
		return v
	}
	if l, ok := e.lets[n]; ok {
		return e.v(l)
	}
	switch n {
	case "true":
		return Val{T: tTrue, Typ: boolT}
	case "false":
		return Val{T: tFalse, Typ: boolT}
	case "nil":
		return Val{T: tInt(0), Typ: types.Typ[types.UntypedNil]}
	case "alloc":
		return Val{T: e.vc.alloc(e.st), Typ: intT}
	}
	if h, t, ok := e.vc.ghostHeap(n); ok {
		return Val{T: e.vc.getH(e.st, h), Typ: t}
	}
	if f, ok := e.vc.DB.Funs[n]; ok && len(f.Vars) == 0 {
		return e.callFun(f, nil)
	}
	e.fail("unknown name %s", n)
	return Val{}
}

var qcount int

func (e *SpecEnv) quant(x *Expr) Val {
	vc := e.vc
	vars := map[string]Val{}
	var bs []string
	for _, q := range x.Vars {
		t := e.typ(q.Typ)
		qcount++
		n := sym(fmt.Sprintf("q.%s.%d", q.Name, qcount))
		s := vc.sortOf(t)
		vars[q.Name] = Val{T: Term{n, s}, Typ: t}
		bs = append(bs, fmt.Sprintf("(%s %s)", n, s))
	}
	ne := e.with(vars)
	body := ne.b(x.Args[0])
	if body.S == "true" || body.S == "false" {
		return Val{T: body, Typ: boolT}
	}
	var pats []string
	for _, p := range x.Pats {
		var ts []string
		for _, pe := range p {
			ts = append(ts, ne.term(ne.v(pe)).S)
		}
		pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
	}
	b := body.S
	if x.Op == "forall" && (strings.Contains(b, "(exists (") || strings.Contains(b, "(forall (")) {
		// the pattern terms, as ground terms of the negated formula
		var pl []string
		for _, p := range x.Pats {
			for _, pe := range p {
				t := ne.term(ne.v(pe))
				pl = append(pl, "("+vc.plant(t.Sort)+" "+t.S+")")
			}
		}
		if len(pl) > 0 {
			b = "(=> (and " + strings.Join(pl, " ") + " true) " + b + ")"
		}
	}
	if len(pats) > 0 && x.Op == "forall" {
		b = "(! " + b + " " + strings.Join(pats, " ") + ")"
	}
	return Val{T: Term{"(" + x.Op + " (" + strings.Join(bs, " ") + ") " + b + ")", "Bool"}, Typ: boolT}
}

func (e *SpecEnv) arg(x *Expr, i int) *Expr {
	if i >= len(x.Args) {
		e.fail("%s: missing argument %d", x.Name, i)
	}
	return x.Args[i]
}

func (e *SpecEnv) call(x *Expr) Val {
	vc := e.vc
	if m, ok := vc.DB.Macros[x.Name]; ok {
		if len(m.Args) != len(x.Args) {
			e.fail("macro %s: %d arguments", x.Name, len(x.Args))
		}
		vars := map[string]Val{}
		for i, a := range m.Args {
			vars[a] = e.v(x.Args[i])
		}
		return e.with(vars).v(m.E)
	}
	if f, ok := vc.DB.Funs[x.Name]; ok {
		var as []Val
		for _, a := range x.Args {
			as = append(as, e.v(a))
		}
		return e.callFun(f, as)
	}
	switch x.Name {
	case "old":
		if e.old == nil {
			e.fail("old() without a pre-state")
		}
		return e.past(e.old).v(e.arg(x, 0))
	case "now":
		// the state in which the enclosing old() stands
		if e.now == nil {
			return e.v(e.arg(x, 0))
		}
		return e.at(e.now).v(e.arg(x, 0))
	case "loopold":
		if e.loop == nil {
			e.fail("loopold() outside a loop")
		}
		return e.past(e.loop).v(e.arg(x, 0))
	case "len":
		c := e.v(e.arg(x, 0))
		switch u := under(c.Typ).(type) {
		case *types.Map:
			return Val{T: vc.mapLen(e.st, u, e.term(c)), Typ: intT}
		case *types.Slice:
			return Val{T: sLen(e.term(c)), Typ: intT}
		case *types.Basic:
			return Val{T: app("Int", "strlen", e.term(c)), Typ: intT}
		}
		e.fail("len of %s", c.Typ)
	case "cap":
		return Val{T: sCap(e.term(e.v(e.arg(x, 0)))), Typ: intT}
	case "ix":
		return Val{T: tIx(e.term(e.v(e.arg(x, 0))), e.term(e.v(e.arg(x, 1)))), Typ: intT}
	case "off":
		return Val{T: sOff(e.term(e.v(e.arg(x, 0)))), Typ: intT}
	case "arr":
		return Val{T: sArr(e.term(e.v(e.arg(x, 0)))), Typ: intT}
	case "elems":
		c := e.v(e.arg(x, 0))
		u, ok := under(c.Typ).(*types.Slice)
		if !ok {
			e.fail("elems of %s", c.Typ)
		}
		h := vc.elemHeap(u.Elem())
		return Val{T: tSel(vc.getH(e.st, h), sArr(e.term(c))), Typ: &specType{name: "arr", key: intT, elem: u.Elem()}}
	case "dom":
		c := e.v(e.arg(x, 0))
		u := under(c.Typ).(*types.Map)
		return Val{T: vc.mapDom(e.st, u, e.term(c)), Typ: &specType{name: "set", key: u.Key(), elem: boolT}}
	case "vals":
		c := e.v(e.arg(x, 0))
		u := under(c.Typ).(*types.Map)
		return Val{T: vc.mapVals(e.st, u, e.term(c)), Typ: &specType{name: "arr", key: u.Key(), elem: u.Elem()}}
	case "lim":
		// lim(f(..)): f without further unfolding (for patterns)
		r := e.v(e.arg(x, 0))
		for _, f := range vc.DB.Funs {
			if n := "(" + sym("$"+f.Name) + " "; f.Kind == "recfun" && strings.HasPrefix(r.T.S, n) {
				r.T.S = "(" + sym("$"+f.Name+"$L") + " " + r.T.S[len(n):]
				return r
			}
		}
		e.fail("lim: not a recursive function")
		return r
	case "heapdom", "heapvals":
		// heapdom(map[K]V): the key sets of all maps of a type
		t := e.typ(x.Typ)
		u, ok := under(t).(*types.Map)
		if !ok {
			e.fail("%s: not a map type", x.Name)
		}
		d, v, _ := vc.mapHeaps(u)
		if x.Name == "heapdom" {
			return Val{T: vc.getH(e.st, d), Typ: &specType{name: "arr", key: t, elem: &specType{name: "set", key: u.Key(), elem: boolT}}}
		}
		return Val{T: vc.getH(e.st, v), Typ: &specType{name: "arr", key: t, elem: &specType{name: "arr", key: u.Key(), elem: u.Elem()}}}
	case "contentof":
		// contentof([]T, ref): elements array of a backing array
		t := e.typ(x.Typ).(*types.Slice)
		h := vc.elemHeap(t.Elem())
		return Val{T: tSel(vc.getH(e.st, h), e.term(e.v(e.arg(x, 0)))), Typ: &specType{name: "arr", key: intT, elem: t.Elem()}}
	case "blob":
		c := e.v(e.arg(x, 0))
		u, ok := under(c.Typ).(*types.Slice)
		if !ok {
			e.fail("blob of %s", c.Typ)
		}
		return Val{T: vc.blobOf(e.st, u, e.term(c)), Typ: &specType{name: "Blob", sort: "Blob"}}
	case "blobstr":
		return Val{T: app("Str", "blob2str", e.term(e.v(e.arg(x, 0)))), Typ: strT}
	case "strblob":
		return Val{T: app("Blob", "str2blob", e.term(e.v(e.arg(x, 0)))), Typ: &specType{name: "Blob", sort: "Blob"}}
	case "fresh":
		c := e.v(e.arg(x, 0))
		if e.old == nil {
			e.fail("fresh without pre-state")
		}
		r := e.refOf(c)
		return Val{T: tAnd(app("Bool", "<=", vc.alloc(e.old), r), app("Bool", "<", r, vc.alloc(e.st))), Typ: boolT}
	case "allocated":
		c := e.v(e.arg(x, 0))
		r := e.refOf(c)
		return Val{T: app("Bool", "<", r, vc.alloc(e.st)), Typ: boolT}
	case "ref":
		c := e.v(e.arg(x, 0))
		return Val{T: e.refOf(c), Typ: intT}
	case "real":
		t := e.term(e.v(e.arg(x, 0)))
		if t.Sort == "Int" {
			t = toReal(t)
		}
		return Val{T: t, Typ: realT}
	case "zeroof":
		t := e.typ(x.Typ)
		return Val{T: vc.zero(t), Typ: t}
	case "mk":
		// mk(T, Field, value, ...): a struct value; other fields are zero
		t := e.typ(x.Typ)
		su, ok := under(t).(*types.Struct)
		if !ok || isOpaque(t) || len(x.Args)%2 != 0 {
			e.fail("mk: not a struct type with named fields")
		}
		fs := make([]Term, su.NumFields())
		for i := range fs {
			fs[i] = vc.zero(su.Field(i).Type())
		}
		for j := 0; j+1 < len(x.Args); j += 2 {
			found := false
			for i := range fs {
				if su.Field(i).Name() == x.Args[j].Name {
					fs[i] = e.term(e.v(x.Args[j+1]))
					found = true
				}
			}
			if !found {
				e.fail("mk: no field %s", x.Args[j].Name)
			}
		}
		return Val{T: vc.structOf(t).mk(fs), Typ: t}
	case "istype":
		t := e.typ(x.Typ)
		_, _, tag := vc.boxFns(t)
		return Val{T: tEq(app("Int", "typ", e.term(e.v(e.arg(x, 0)))), tInt(int64(tag))), Typ: boolT}
	case "tagof":
		t := e.typ(x.Typ)
		_, _, tag := vc.boxFns(t)
		return Val{T: tInt(int64(tag)), Typ: intT}
	case "unbox":
		t := e.typ(x.Typ)
		return Val{T: vc.unbox(e.term(e.v(e.arg(x, 0))), t), Typ: t}
	case "box":
		t := e.typ(x.Typ)
		return Val{T: vc.box(e.term(e.v(e.arg(x, 0))), t), Typ: types.NewInterfaceType(nil, nil)}
	case "ext":
		// ext(T, "pkg.F", args...): the value of a library function
		t := e.typ(x.Typ)
		key, err := strconv.Unquote(e.arg(x, 0).Name)
		if err != nil {
			e.fail("ext: function name expected")
		}
		i := 0
		if j := strings.IndexByte(key, '#'); j >= 0 {
			i, _ = strconv.Atoi(key[j+1:])
			key = key[:j]
		}
		var ts []Term
		for _, a := range x.Args[1:] {
			av := e.v(a)
			at := e.term(av)
			if av.Typ != nil {
				if u, ok := under(av.Typ).(*types.Slice); ok {
					at = vc.blobOf(e.st, u, at)
				}
			}
			ts = append(ts, at)
		}
		return Val{T: vc.extApp(key, i, ts, vc.sortOf(t)), Typ: t}
	case "sent", "rcvd":
		c := e.v(e.arg(x, 0))
		u, ok := under(c.Typ).(*types.Chan)
		if !ok {
			e.fail("%s of %s", x.Name, c.Typ)
		}
		a, b := vc.chSets(u.Elem())
		if x.Name == "rcvd" {
			a = b
		}
		return Val{T: tSel(vc.getH(e.st, a), e.term(c)), Typ: &specType{name: "set", key: u.Elem(), elem: boolT}}
	case "msg", "nsent", "gotidx":
		// messages in sending order, their number, indices received so far
		c := e.v(e.arg(x, 0))
		u, ok := under(c.Typ).(*types.Chan)
		if !ok {
			e.fail("%s of %s", x.Name, c.Typ)
		}
		m, g := vc.chMsgs(u.Elem())
		switch x.Name {
		case "nsent":
			return Val{T: tSel(vc.getH(e.st, kChSent), e.term(c)), Typ: intT}
		case "gotidx":
			return Val{T: tSel(vc.getH(e.st, g), e.term(c)), Typ: &specType{name: "set", key: intT, elem: boolT}}
		}
		return Val{T: tSel(tSel(vc.getH(e.st, m), e.term(c)), e.term(e.v(e.arg(x, 1)))), Typ: u.Elem()}
	case "carried", "carrier":
		// keys of the maps sent over a channel, and a sent map with the key
		c := e.v(e.arg(x, 0))
		u, ok := under(c.Typ).(*types.Chan)
		if !ok {
			e.fail("%s of %s", x.Name, c.Typ)
		}
		mt, ok := under(u.Elem()).(*types.Map)
		if !ok {
			e.fail("%s of %s", x.Name, c.Typ)
		}
		ks, by := vc.carrySets(mt)
		k := e.term(e.v(e.arg(x, 1)))
		if x.Name == "carried" {
			return Val{T: tSel(tSel(vc.getH(e.st, ks), e.term(c)), k), Typ: boolT}
		}
		return Val{T: tSel(tSel(vc.getH(e.st, by), e.term(c)), k), Typ: u.Elem()}
	case "pending":
		// number of messages in a local channel
		c := e.v(e.arg(x, 0))
		return Val{T: tSel(vc.getH(e.st, vc.kHeap(kChN)), e.term(c)), Typ: intT}
	case "isclosed":
		c := e.v(e.arg(x, 0))
		return Val{T: tSel(vc.getH(e.st, vc.kHeap(kChClosed)), e.term(c)), Typ: boolT}
	case "chcap":
		c := e.v(e.arg(x, 0))
		return Val{T: tSel(vc.getH(e.st, vc.kHeap(kChCap)), e.term(c)), Typ: intT}
	}
	e.fail("unknown function %s", x.Name)
	return Val{}
}

func (e *SpecEnv) refOf(c Val) Term {
	t := e.term(c)
	if t.Sort == "Slice" {
		return sArr(t)
	}
	if t.Sort != "Int" {
		e.fail("not a reference: %s", t.S)
	}
	return t
}

func (v *VC) blobOf(st *State, u *types.Slice, s Term) Term {
	h := v.elemHeap(u.Elem())
	return app("Blob", "blob", tSel(v.getH(st, h), sArr(s)), sOff(s), sLen(s))
}

// callFun applies a specification function, declaring it on first use.
func (e *SpecEnv) callFun(f *RecFun, as []Val) Val {
	vc := e.vc
	if len(as) != len(f.Vars) {
		e.fail("%s: %d arguments, want %d", f.Name, len(as), len(f.Vars))
	}
	e.declSpecFun(f)
	rt := e.typ(f.Ret)
	name := sym("$" + f.Name)
	if e.noState && vc.limited == f.Name {
		name = sym("$" + f.Name + "$L")
	}
	var ts []Term
	for i, a := range as {
		t := e.term(a)
		ws := vc.sortOf(e.typ(f.Vars[i].Typ))
		if ws == "Real" && t.Sort == "Int" {
			t = toReal(t)
		}
		if t.Sort != ws {
			e.fail("%s: argument %d has sort %s, want %s", f.Name, i, t.Sort, ws)
		}
		ts = append(ts, t)
	}
	rs := vc.sortOf(rt)
	if len(ts) == 0 {
		return Val{T: Term{name, rs}, Typ: rt}
	}
	return Val{T: app(rs, name, ts...), Typ: rt}
}

func (e *SpecEnv) declSpecFun(f *RecFun) {
	vc := e.vc
	key := "fun:" + f.Name
	if vc.consts[key] {
		return
	}
	vc.consts[key] = true
	base := &SpecEnv{vc: vc, vars: map[string]Val{}, noState: true, st: vc.newState()}
	var sorts, bs, vs []string
	for _, q := range f.Vars {
		t := base.typ(q.Typ)
		s := vc.sortOf(t)
		n := sym("v." + q.Name)
		sorts = append(sorts, s)
		bs = append(bs, fmt.Sprintf("(%s %s)", n, s))
		vs = append(vs, n)
		base.vars[q.Name] = Val{T: Term{n, s}, Typ: t}
	}
	rs := vc.sortOf(base.typ(f.Ret))
	name := sym("$" + f.Name)
	vc.preDecl(fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(sorts, " "), rs))
	if f.Kind == "fun" {
		return
	}
	call := "(" + name + " " + strings.Join(vs, " ") + ")"
	if f.Kind == "recfun" {
		lim := sym("$" + f.Name + "$L")
		vc.preDecl(fmt.Sprintf("(declare-fun %s (%s) %s)", lim, strings.Join(sorts, " "), rs))
		lcall := "(" + lim + " " + strings.Join(vs, " ") + ")"
		vc.preDecl(fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(bs, " "), lcall, call, call))
		sv := vc.limited
		vc.limited = f.Name
		body := base.term(base.v(f.E))
		vc.limited = sv
		vc.preDecl(fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(bs, " "), call, body.S, call))
		return
	}
	body := base.term(base.v(f.E))
	if len(vs) == 0 {
		vc.preDecl(fmt.Sprintf("(assert (= %s %s))", name, body.S))
		return
	}
	vc.preDecl(fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(bs, " "), call, body.S, call))
}

// ---- lemmas and axioms

func exprFuns(db *DB, x *Expr, out map[string]bool, seen map[string]bool) {
	if x == nil {
		return
	}
	if x.Op == "call" || x.Op == "id" {
		if _, ok := db.Funs[x.Name]; ok {
			out[x.Name] = true
		}
		if m, ok := db.Macros[x.Name]; ok && x.Op == "call" && !seen[x.Name] {
			seen[x.Name] = true
			exprFuns(db, m.E, out, seen)
		}
	}
	for _, a := range x.Args {
		exprFuns(db, a, out, seen)
	}
	for _, p := range x.Pats {
		for _, a := range p {
			exprFuns(db, a, out, seen)
		}
	}
}

// lemmaTerm builds the quantified formula of a lemma.
func (v *VC) lemmaTerm(l *Lemma) (t Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("lemma %s: %s", l.Name, se.msg)
				return
			}
			panic(r)
		}
	}()
	e := &SpecEnv{vc: v, vars: map[string]Val{}, st: v.newState()}
	if len(l.Vars) == 0 {
		return e.b(l.E), nil
	}
	t = e.b(&Expr{Op: "forall", Vars: l.Vars, Pats: l.Pats, Args: []*Expr{l.E}})
	if l.Limited {
		t = v.limitedTerm(t)
	}
	return t, nil
}

// limitedTerm replaces applications of recursive functions by their limited
// versions, which are equal to them but are not unfolded.
func (v *VC) limitedTerm(t Term) Term {
	for _, f := range v.DB.Funs {
		if f.Kind == "recfun" {
			t.S = strings.ReplaceAll(t.S, "("+sym("$"+f.Name)+" ", "("+sym("$"+f.Name+"$L")+" ")
		}
	}
	return t
}

// addLemmas asserts the lemmas and axioms whose functions occur in the script.
func (v *VC) addLemmas(skip *Lemma) error {
	done := map[*Lemma]bool{}
	for again := true; again; {
		again = false
		for _, l := range v.DB.Lemmas {
			if l == skip {
				if !l.Axiom {
					break // a lemma may use only earlier lemmas
				}
			}
			if done[l] {
				continue
			}
			fs := map[string]bool{}
			if len(l.Pats) > 0 {
				for _, p := range l.Pats {
					for _, a := range p {
						exprFuns(v.DB, a, fs, map[string]bool{})
					}
				}
			}
			some := false
			if len(fs) == 0 {
				exprFuns(v.DB, l.E, fs, map[string]bool{})
				some = len(l.Pats) > 0
			}
			all := len(fs) > 0
			any := false
			for f := range fs {
				if !v.consts["fun:"+f] {
					all = false
				} else {
					any = true
				}
			}
			all = all || some && any
			if !all {
				continue
			}
			done[l] = true
			again = true
			t, err := v.lemmaTerm(l)
			if err != nil {
				return err
			}
			v.preDecl("(assert " + t.S + ")")
			if l.Axiom {
				v.trusted["axiom "+l.Name] = true
			} else {
				v.usedLemmas[l.Name] = l
			}
		}
	}
	return nil
}

// ---- modifies regions

type Region struct {
	Heap  string
	Cond  func(r Term) Term // which references may change (nil: everything)
	Src   string
	Ghost bool
}

func (e *SpecEnv) regions(c *Clause) (rs []Region, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in modifies %s)", se.msg, c.Src)
				return
			}
			panic(r)
		}
	}()
	return e.region(c.E, c.Src), nil
}

func eqRef(t Term) func(Term) Term { return func(r Term) Term { return tEq(r, t) } }

func (e *SpecEnv) region(x *Expr, src string) []Region {
	vc := e.vc
	mapRegs := func(mt *types.Map, cond func(Term) Term) []Region {
		d, m, l := vc.mapHeaps(mt)
		return []Region{{d, cond, src, false}, {m, cond, src, false}, {l, cond, src, false}}
	}
	condOf := func(vn string, ce *Expr, t types.Type) func(Term) Term {
		return func(r Term) Term {
			return e.with(map[string]Val{vn: {T: r, Typ: t}}).b(ce)
		}
	}
	switch x.Op {
	case "sel":
		// x.f: a field location, or a package variable
		if x.Args[0].Op == "id" {
			if _, ok := e.vars[x.Args[0].Name]; !ok {
				for _, p := range vc.P.byName[x.Args[0].Name] {
					if sp := vc.P.Prog.Package(p); sp != nil {
						if g := sp.Var(x.Name); g != nil {
							return []Region{{Heap: vc.globalHeap(g), Src: src}}
						}
					}
				}
			}
		}
		p := e.v(x.Args[0])
		pt, ok := under(p.Typ).(*types.Pointer)
		if !ok {
			e.fail("modifies %s: not a field of a pointer", src)
		}
		path := e.fieldPath(pt.Elem(), x.Name)
		if path == nil {
			e.fail("no field %s", x.Name)
		}
		l := vc.fieldAddr(p, pt.Elem(), path[0])
		if l.Kind == lLocal {
			return nil
		}
		return []Region{{l.Heap, eqRef(l.Ref), src, false}}
	case "deref":
		p := e.v(x.Args[0])
		l := vc.ptrLval(p)
		if l == nil {
			st := under(p.Typ).(*types.Pointer).Elem()
			s := under(st).(*types.Struct)
			var out []Region
			for i := 0; i < s.NumFields(); i++ {
				if isOpaque(s.Field(i).Type()) {
					continue
				}
				out = append(out, Region{vc.fieldHeap(st, i), eqRef(p.T), src, false})
			}
			return out
		}
		if l.Kind == lLocal {
			return []Region{{Heap: "", Src: src}}
		}
		if l.Kind == lAmb {
			out := []Region{{l.Heap, eqRef(l.Ref), src, false}}
			for _, a := range l.Alts {
				a := a
				out = append(out, Region{a.heap, func(r Term) Term { return tAnd(l.isAlt(a), tEq(r, app("Int", a.inv, l.Ref))) }, src, false})
			}
			return out
		}
		return []Region{{l.Heap, eqRef(l.Ref), src, false}}
	case "id":
		if h, _, ok := vc.ghostHeap(x.Name); ok {
			return []Region{{Heap: h, Src: src, Ghost: true}}
		}
		e.fail("modifies: unknown target %s", x.Name)
	case "call":
		switch x.Name {
		case "map":
			m := e.v(e.arg(x, 0))
			mt, ok := under(m.Typ).(*types.Map)
			if !ok {
				e.fail("map(%s): not a map", m.Typ)
			}
			return mapRegs(mt, eqRef(e.term(m)))
		case "elems":
			s := e.v(e.arg(x, 0))
			u, ok := under(s.Typ).(*types.Slice)
			if !ok {
				e.fail("elems of %s", s.Typ)
			}
			return []Region{{vc.elemHeap(u.Elem()), eqRef(sArr(e.term(s))), src, false}}
		case "allelems":
			t := e.typ(x.Typ)
			return []Region{{Heap: vc.elemHeap(t), Src: src}}
		case "elemsif":
			t := e.typ(x.Typ)
			return []Region{{vc.elemHeap(t), condOf(e.arg(x, 0).Name, e.arg(x, 1), intT), src, false}}
		case "allmap":
			return mapRegs(under(e.typ(x.Typ)).(*types.Map), nil)
		case "mapif":
			t := e.typ(x.Typ)
			return mapRegs(under(t).(*types.Map), condOf(e.arg(x, 0).Name, e.arg(x, 1), t))
		case "cells":
			return []Region{{Heap: vc.cellHeap(e.typ(x.Typ)), Src: src}}
		case "cellif":
			t := e.typ(x.Typ)
			return []Region{{vc.cellHeap(t), condOf(e.arg(x, 0).Name, e.arg(x, 1), intT), src, false}}
		case "allfield", "fieldif":
			// allfield(pkg.T, f)  fieldif(pkg.T, f, r, cond)
			t := e.typ(x.Typ)
			p := e.fieldPath(t, e.arg(x, 0).Name)
			if p == nil {
				e.fail("no field %s in %s", e.arg(x, 0).Name, t)
			}
			h := vc.fieldHeap(t, p[0])
			if x.Name == "allfield" {
				return []Region{{Heap: h, Src: src}}
			}
			return []Region{{h, condOf(e.arg(x, 1).Name, e.arg(x, 2), types.NewPointer(t)), src, false}}
		case "ghostat":
			h, _, ok := vc.ghostHeap(e.arg(x, 0).Name)
			if !ok {
				e.fail("unknown ghost %s", x.Args[0].Name)
			}
			i := e.term(e.v(e.arg(x, 1)))
			return []Region{{h, eqRef(i), src, true}}
		case "ghostif":
			h, t, ok := vc.ghostHeap(e.arg(x, 0).Name)
			if !ok {
				e.fail("unknown ghost %s", x.Args[0].Name)
			}
			return []Region{{h, condOf(e.arg(x, 1).Name, e.arg(x, 2), t.(*specType).key), src, true}}
		}
		if m, ok := vc.DB.Macros[x.Name]; ok {
			vars := map[string]Val{}
			for i, a := range m.Args {
				vars[a] = e.v(x.Args[i])
			}
			return e.with(vars).region(m.E, src)
		}
	}
	e.fail("cannot use %s as a modifies target", src)
	return nil
}

var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)

// plant is a predicate that holds of everything; it makes a term known to the
// solver.
func (v *VC) plant(sort string) string {
	n := sym("plant!" + sort)
	if v.planted[n] == "" {
		if v.planted == nil {
			v.planted = map[string]string{}
		}
		v.planted[n] = sort
		v.preDecl("(declare-fun " + n + " (" + sort + ") Bool)")
		v.preDecl("(assert (forall ((x " + sort + ")) (! (" + n + " x) :pattern ((" + n + " x)))))")
	}
	return n
}

// unaliased rebuilds a type without alias names.
func unaliased(t types.Type) types.Type {
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return types.NewPointer(unaliased(x.Elem()))
	case *types.Slice:
		return types.NewSlice(unaliased(x.Elem()))
	case *types.Array:
		return types.NewArray(unaliased(x.Elem()), x.Len())
	case *types.Map:
		return types.NewMap(unaliased(x.Key()), unaliased(x.Elem()))
	case *types.Chan:
		return types.NewChan(x.Dir(), unaliased(x.Elem()))
	default:
		return x
	}
}

func typeKey(t types.Type) string {
	s := types.TypeString(unaliased(t), func(p *types.Package) string { return shortPath(p.Path()) })
	if strings.Contains(s, "byte") {
		s = reByte.ReplaceAllString(s, "uint8")
	}
	if strings.Contains(s, "rune") {
		s = reRune.ReplaceAllString(s, "int32")
	}
	return strings.ReplaceAll(s, "interface{}", "any")
}
