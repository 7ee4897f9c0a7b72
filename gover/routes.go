package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Request handlers have no stable names: they are functions handed to the
// router. The contract handler.METHOD_path belongs to whatever function main
// registers for that method and path.

const routePrefix = "handler."

func (p *Program) handler(key string) (*ssa.Function, error) {
	want := strings.TrimPrefix(key, routePrefix)
	var found []*ssa.Function
	for _, k := range sortedKeys(p.Funcs) {
		for _, b := range p.Funcs[k].Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "github.com/gin-gonic/gin" || f.Signature.Recv() == nil {
					continue
				}
				args := c.Common().Args[1:]
				method := f.Name()
				if method == "Handle" && len(args) > 0 {
					m, ok := constString(args[0])
					if !ok {
						continue
					}
					method, args = m, args[1:]
				}
				if len(args) < 2 {
					continue
				}
				path, ok := constString(args[0])
				if !ok || method+strings.ReplaceAll(path, "/", "_") != want {
					continue
				}
				hs := handlerArgs(args[1])
				if len(hs) == 0 {
					return nil, fmt.Errorf("the handlers of %s %s are not known statically", method, path)
				}
				if len(hs) > 1 {
					return nil, fmt.Errorf("%s %s has several handlers", method, path)
				}
				h := closureFn(hs[0], 0)
				if h == nil {
					return nil, fmt.Errorf("the handler of %s %s is not known statically", method, path)
				}
				found = append(found, h)
			}
		}
	}
	if len(found) != 1 {
		return nil, fmt.Errorf("%d functions are registered for %s", len(found), want)
	}
	return found[0], nil
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// handlerArgs are the elements of a variadic argument list.
func handlerArgs(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

// closureFn is the function behind a function value.
func closureFn(v ssa.Value, depth int) *ssa.Function {
	if depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return closureFn(x.X, depth+1)
	case *ssa.Call:
		// a repository function that returns a closure
		f := x.Call.StaticCallee()
		if f == nil || !isRepoFn(f) {
			return nil
		}
		var h *ssa.Function
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				g := closureFn(r.Results[0], depth+1)
				if g == nil || h != nil && h != g {
					return nil
				}
				h = g
			}
		}
		return h
	}
	return nil
}

// captured gives the variables a handler captured arbitrary values. They were
// assigned before the handler was registered, so what they point to exists.
func (fr *Frame) captured(st *State) {
	vc := fr.vc
	for _, fv := range fr.fn.FreeVars {
		t := fr.typ(fv.Type())
		c := vc.constant("p!"+fv.Name(), vc.sortOf(t))
		if w := vc.valWF(c, t, vc.initAl); w.S != "true" {
			vc.raw(w, "wf")
		}
		x := Val{T: c, Typ: t}
		fr.env[fv] = x
		fr.present(st, c, t)
		if p, ok := under(t).(*types.Pointer); ok {
			if _, ok := under(p.Elem()).(*types.Struct); !ok {
				if e := vc.asTerm(st, vc.readL(st, vc.ptrLval(x))); e.ok() {
					fr.present(st, e, p.Elem())
				}
			}
		}
	}
	vc.trusted["variables captured by request handlers are set before the handler is registered and not nil"] = true
}

// present: a captured reference and the reference fields of a captured object
// are not nil.
func (fr *Frame) present(st *State, c Term, t types.Type) {
	vc := fr.vc
	switch u := under(t).(type) {
	case *types.Interface:
		vc.raw(tNot(tEq(c, Term{"nilIface", "Iface"})), "captured")
	case *types.Map, *types.Chan, *types.Signature:
		vc.raw(tNot(tEq(c, tInt(0))), "captured")
	case *types.Pointer:
		vc.raw(tNot(tEq(c, tInt(0))), "captured")
		if s, ok := under(u.Elem()).(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if _, ok := under(ft).(*types.Interface); ok {
					if e := vc.asTerm(st, vc.readL(st, vc.fieldAddr(Val{T: c, Typ: t}, u.Elem(), i))); e.ok() {
						vc.raw(tNot(tEq(e, Term{"nilIface", "Iface"})), "captured")
					}
				}
			}
		}
	}
}
