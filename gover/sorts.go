package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Term is an SMT-LIB term with its sort.
type Term struct {
	S    string
	Sort string
}

func (t Term) ok() bool { return t.S != "" }

var tTrue = Term{"true", "Bool"}
var tFalse = Term{"false", "Bool"}

func app(sort, op string, args ...Term) Term {
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.S)
	}
	b.WriteByte(')')
	return Term{b.String(), sort}
}

func tInt(n int64) Term {
	if n < 0 {
		return Term{fmt.Sprintf("(- %d)", -n), "Int"}
	}
	return Term{fmt.Sprintf("%d", n), "Int"}
}

func tAnd(ts ...Term) Term {
	var out []Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.S == "true" || seen[t.S] {
			continue
		}
		if t.S == "false" {
			return tFalse
		}
		seen[t.S] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return app("Bool", "and", out...)
}

func tOr(ts ...Term) Term {
	var out []Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.S == "false" || seen[t.S] {
			continue
		}
		if t.S == "true" {
			return tTrue
		}
		seen[t.S] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return app("Bool", "or", out...)
}

func tNot(t Term) Term {
	switch {
	case t.S == "true":
		return tFalse
	case t.S == "false":
		return tTrue
	case strings.HasPrefix(t.S, "(not ") && balancedInner(t.S[5:len(t.S)-1]):
		return Term{t.S[5 : len(t.S)-1], "Bool"}
	}
	return app("Bool", "not", t)
}

func balancedInner(s string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d < 0 {
				return false
			}
		}
	}
	return d == 0
}

func tImp(a, b Term) Term {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return tTrue
	}
	if b.S == "false" {
		return tNot(a)
	}
	return app("Bool", "=>", a, b)
}

func tEq(a, b Term) Term {
	if a.S == b.S {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in =: %s : %s vs %s : %s", a.S, a.Sort, b.S, b.Sort))
	}
	return app("Bool", "=", a, b)
}

func tIte(c, a, b Term) Term {
	if c.S == "true" || a.S == b.S {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.Sort == "Bool" {
		if a.S == "true" && b.S == "false" {
			return c
		}
	}
	return app(a.Sort, "ite", c, a, b)
}

// splitArray returns the index and element sorts of (Array I E).
func splitArray(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func isArray(s string) bool { return strings.HasPrefix(s, "(Array ") }

func tSel(a, i Term) Term {
	_, e := splitArray(a.Sort)
	// read over a literal store at the same index
	if strings.HasPrefix(a.S, "(store ") {
		if args := sexprArgs(a.S); len(args) == 3 && args[1] == i.S {
			return Term{args[2], e}
		}
	}
	return app(e, "select", a, i)
}

func tStore(a, i, v Term) Term {
	_, e := splitArray(a.Sort)
	if e != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s into %s : %s", v.S+":"+v.Sort, a.S, a.Sort))
	}
	return app(a.Sort, "store", a, i, v)
}

func sexprArgs(s string) []string {
	// arguments of "(op a b c)"
	var out []string
	in := s[1 : len(s)-1]
	i := strings.IndexByte(in, ' ')
	if i < 0 {
		return nil
	}
	in = in[i+1:]
	d, st := 0, 0
	bar := false
	for j := 0; j < len(in); j++ {
		if bar {
			if in[j] == '|' {
				bar = false
			}
			continue
		}
		switch in[j] {
		case '|':
			bar = true
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if j > st {
					out = append(out, in[st:j])
				}
				st = j + 1
			}
		}
	}
	if st < len(in) {
		out = append(out, in[st:])
	}
	return out
}

func arr(i, e string) string { return "(Array " + i + " " + e + ")" }

var sanRepl = strings.NewReplacer("github.com/sira-serverless-ir-arch/goirlib/", "", "|", "!", "\\", "!")

func sym(s string) string {
	s = sanRepl.Replace(s)
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$-", c)) {
			return "|" + s + "|"
		}
	}
	if s == "" || s[0] >= '0' && s[0] <= '9' || s[0] == '-' {
		return "|" + s + "|"
	}
	return s
}

// ---- Go types to sorts

type structInfo struct {
	Sort   string
	Ctor   string
	Sels   []string
	FSorts []string
	T      *types.Struct
	Type   types.Type
}

func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return tp
	}
	return t.Underlying()
}

func isRefType(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (v *VC) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		s := "TP_" + tp.Obj().Name()
		v.declSort(s)
		return s
	}
	if sp, ok := t.(*specType); ok {
		if sp.sort != "" {
			v.declSort(sp.sort)
			return sp.sort
		}
		return arr(v.sortOf(sp.key), v.sortOf(sp.elem))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Int"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
		v.declSort("U_" + u.Name())
		return "U_" + u.Name()
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return v.structOf(t).Sort
	case *types.Array:
		return arr("Int", v.sortOf(u.Elem()))
	case *types.Tuple:
		return "TUPLE"
	}
	panic("sortOf: " + t.String())
}

func (v *VC) declSort(s string) {
	if v.sorts[s] {
		return
	}
	v.sorts[s] = true
	v.preDecl("(declare-sort " + s + " 0)")
}

func (v *VC) structOf(t types.Type) *structInfo {
	k := typeKey(t)
	if si, ok := v.structs[k]; ok {
		return si
	}
	st := under(t).(*types.Struct)
	si := &structInfo{T: st, Type: t}
	nm := sanRepl.Replace(k)
	si.Sort = sym("S:" + nm)
	si.Ctor = sym("mk:" + nm)
	v.structs[k] = si
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		fsort := v.sortOf(st.Field(i).Type())
		si.FSorts = append(si.FSorts, fsort)
		sel := sym(nm + "." + fieldName(st, i))
		si.Sels = append(si.Sels, sel)
		fs = append(fs, fmt.Sprintf("(%s %s)", sel, fsort))
	}
	if len(fs) == 0 {
		v.preDecl(fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s))))", si.Sort, si.Ctor))
	} else {
		v.preDecl(fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", si.Sort, si.Ctor, strings.Join(fs, " ")))
	}
	return si
}

func fieldName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	return n
}

func (si *structInfo) mk(fs []Term) Term {
	if len(fs) == 0 {
		return Term{si.Ctor, si.Sort}
	}
	return app(si.Sort, si.Ctor, fs...)
}

func (si *structInfo) sel(t Term, i int) Term {
	if strings.HasPrefix(t.S, "("+si.Ctor+" ") {
		if a := sexprArgs(t.S); len(a) == len(si.Sels) {
			return Term{a[i], si.FSorts[i]}
		}
	}
	return app(si.FSorts[i], si.Sels[i], t)
}

func (v *VC) zero(t types.Type) Term {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		s := v.sortOf(t)
		return v.constant("zero_TP_"+tp.Obj().Name(), s)
	}
	if sp, ok := t.(*specType); ok {
		if sp.sort != "" {
			return v.constant("zero_"+sp.sort, v.sortOf(t))
		}
		if v.sortOf(sp.elem) == "Bool" {
			return emptySet(v.sortOf(sp.key))
		}
		return v.zeroArray(v.sortOf(sp.key), sp.elem)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch v.sortOf(t) {
		case "Bool":
			return tFalse
		case "Int":
			return tInt(0)
		case "Real":
			return Term{"0.0", "Real"}
		case "Str":
			return v.strLit("")
		}
		return v.constant("zero_"+v.sortOf(t), v.sortOf(t))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return tInt(0)
	case *types.Slice:
		return Term{"nilSlice", "Slice"}
	case *types.Interface:
		return Term{"nilIface", "Iface"}
	case *types.Struct:
		si := v.structOf(t)
		var fs []Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, v.zero(u.Field(i).Type()))
		}
		return si.mk(fs)
	case *types.Array:
		return v.zeroArray("Int", u.Elem())
	}
	panic("zero: " + t.String())
}

// zeroArray is an array holding the zero value of elem everywhere.
func (v *VC) zeroArray(idx string, elem types.Type) Term {
	es := v.sortOf(elem)
	z := v.zero(elem)
	name := sym("zeroArr:" + idx + ":" + typeKey(elem))
	if !v.consts[name] {
		v.consts[name] = true
		v.preDecl(fmt.Sprintf("(declare-const %s %s)", name, arr(idx, es)))
		v.preDecl(fmt.Sprintf("(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))", idx, name, z.S, name))
	}
	return Term{name, arr(idx, es)}
}

func emptySet(k string) Term {
	return Term{fmt.Sprintf("((as const (Array %s Bool)) false)", k), arr(k, "Bool")}
}
