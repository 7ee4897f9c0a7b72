package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- specification language: lexer, expressions, clauses

type Expr struct {
	Op   string
	Name string
	Args []*Expr
	Vars []QVar
	Pats [][]*Expr
	Typ  *TypeExpr
	Src  string
}

type QVar struct {
	Name string
	Typ  *TypeExpr
}

type TypeExpr struct {
	Op   string // name, ptr, slice, map, set, arr, chan, inst, sort
	Name string
	Args []*TypeExpr
}

// specType is a specification-only type.
type specType struct {
	sort string
	name string
	key  types.Type
	elem types.Type
}

func (s *specType) Underlying() types.Type { return s }
func (s *specType) String() string         { return s.name }

type Role struct {
	Name string
	Kind string // iter, visited, outerit, outervis, value
	Typ  *TypeExpr
}

type Clause struct {
	Kind   string
	Labels []string
	Name   string
	E      *Expr
	E2     *Expr
	Src    string
	Roles  []Role
	Event  string
	File   string
	Line   int
}

type Contract struct {
	Key        string
	Params     []string
	Results    []string
	RTypes     []*TypeExpr
	PTypes     []*TypeExpr
	Requires   []*Clause
	LangRules  []*Clause // language guarantees assumed at entry
	Ensures    []*Clause
	Mods       []*Clause
	Invs       []*Clause
	Crash      []*Clause
	Mids       []*Clause
	Always     []*Clause
	OnTick     []*Clause // events: a tick, a received message
	OnRecv     []*Clause
	Background bool      // a goroutine that runs beside the operations
	OnStart    []*Clause // the event of starting the function as a goroutine
	Let        []*Clause
	Repeats    *Clause
	Hints      []*Clause
	MayPanic   []*Clause
	Extern     bool
	Pure       bool
	NoReturn   bool
	Inline     bool
	Model      bool
	Noframe    bool
	CrashPt    bool
	File       string
	Line       int
	Opts       map[string]string
}

type Macro struct {
	Name string
	Args []string
	E    *Expr
}

type RecFun struct {
	Name  string
	Vars  []QVar
	Ret   *TypeExpr
	E     *Expr
	Guard *Expr
	Kind  string // rec, fun, define
}

type Lemma struct {
	Name    string
	Labels  []string
	Vars    []QVar
	Induct  string
	Limited bool
	E       *Expr
	Pats    [][]*Expr
	Axiom   bool
	Src     string
	Uses    []string
}

type DB struct {
	Contracts map[string]*Contract
	Order     []string
	Macros    map[string]*Macro
	Funs      map[string]*RecFun
	FunOrder  []string
	Lemmas    []*Lemma
	Ghosts    map[string]types.Type
	ghostTE   map[string]*TypeExpr
	GhostOf   map[string][]string // opaque type -> ghosts indexed by its refs
	Smt       []string
	P         *Program
	Guards    []Guard
	Addressed []Guard
	Frozen    []Guard
}

// Guard says that a field is protected by a lock field of the same struct.
type Guard struct {
	Type  string
	Field string
	Lock  string
	Prop  string
}

type lexer struct {
	s    string
	pos  int
	toks []string
}

func lex(s string) ([]string, error) {
	var out []string
	i := 0
	rs := []rune(s)
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1])) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
		default:
			found := false
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "!in"} {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+len(op))]), op) {
					out = append(out, op)
					i += len(op)
					found = true
					break
				}
			}
			if !found {
				out = append(out, string(c))
				i++
			}
		}
	}
	return out, nil
}

type parser struct {
	t   []string
	i   int
	src string
}

type parseErr struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	panic(parseErr{fmt.Sprintf(f, a...) + " in " + p.src + " at token " + fmt.Sprint(p.i)})
}
func (p *parser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}
func (p *parser) peekN(n int) string {
	if p.i+n < len(p.t) {
		return p.t[p.i+n]
	}
	return ""
}
func (p *parser) next() string {
	x := p.peek()
	p.i++
	return x
}
func (p *parser) accept(s string) bool {
	if p.peek() == s {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.peek())
	}
}

func isIdent(s string) bool {
	return s != "" && (unicode.IsLetter(rune(s[0])) || s[0] == '_' || s[0] == '$')
}

func (p *parser) parseType() *TypeExpr {
	switch {
	case p.accept("*"):
		return &TypeExpr{Op: "ptr", Args: []*TypeExpr{p.parseType()}}
	case p.accept("["):
		p.expect("]")
		return &TypeExpr{Op: "slice", Args: []*TypeExpr{p.parseType()}}
	}
	n := p.next()
	if !isIdent(n) {
		p.fail("type expected, found %q", n)
	}
	switch n {
	case "map":
		p.expect("[")
		k := p.parseType()
		p.expect("]")
		return &TypeExpr{Op: "map", Args: []*TypeExpr{k, p.parseType()}}
	case "set":
		p.expect("(")
		k := p.parseType()
		p.expect(")")
		return &TypeExpr{Op: "set", Args: []*TypeExpr{k}}
	case "arr":
		p.expect("(")
		k := p.parseType()
		p.expect(",")
		e := p.parseType()
		p.expect(")")
		return &TypeExpr{Op: "arr", Args: []*TypeExpr{k, e}}
	case "chan":
		return &TypeExpr{Op: "chan", Args: []*TypeExpr{p.parseType()}}
	case "struct":
		p.expect("{")
		p.expect("}")
		return &TypeExpr{Op: "unit"}
	case "interface":
		p.expect("{")
		p.expect("}")
		return &TypeExpr{Op: "name", Name: "any"}
	}
	name := n
	for p.peek() == "." || p.peek() == "/" {
		name += p.next() + p.next()
	}
	if p.peek() == "[" && p.peekN(1) != "]" {
		p.next()
		te := &TypeExpr{Op: "inst", Name: name}
		for {
			te.Args = append(te.Args, p.parseType())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
		return te
	}
	return &TypeExpr{Op: "name", Name: name}
}

func (p *parser) parseVars() []QVar {
	// x, y T, z U
	var out []QVar
	for {
		var names []string
		for {
			n := p.next()
			if !isIdent(n) {
				p.fail("variable expected, found %q", n)
			}
			names = append(names, n)
			if p.peek() == "," {
				p.next()
				continue
			}
			break
		}
		t := p.parseType()
		for _, n := range names {
			out = append(out, QVar{n, t})
		}
		if !p.accept(",") {
			return out
		}
	}
}

func (p *parser) parseExpr() *Expr { return p.parseIff() }

func (p *parser) parseQuant() *Expr {
	op := p.next()
	e := &Expr{Op: op, Vars: p.parseVars()}
	p.expect("::")
	for p.peek() == "{" {
		p.next()
		var pat []*Expr
		for {
			pat = append(pat, p.parseExpr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		e.Pats = append(e.Pats, pat)
	}
	e.Args = []*Expr{p.parseExpr()}
	return e
}

func (p *parser) parseIff() *Expr {
	a := p.parseImp()
	for p.accept("<==>") {
		b := p.parseImp()
		a = &Expr{Op: "<==>", Args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) parseImp() *Expr {
	a := p.parseCond()
	if p.accept("==>") {
		b := p.parseImp()
		return &Expr{Op: "==>", Args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) parseCond() *Expr {
	a := p.parseOr()
	if p.accept("?") {
		b := p.parseCond()
		p.expect(":")
		c := p.parseCond()
		return &Expr{Op: "ite", Args: []*Expr{a, b, c}}
	}
	return a
}

func (p *parser) parseOr() *Expr {
	a := p.parseAnd()
	for p.accept("||") {
		b := p.parseAnd()
		a = &Expr{Op: "||", Args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) parseAnd() *Expr {
	a := p.parseCmp()
	for p.accept("&&") {
		b := p.parseCmp()
		a = &Expr{Op: "&&", Args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) parseCmp() *Expr {
	a := p.parseAdd()
	var res *Expr
	for {
		op := p.peek()
		switch op {
		case "==", "!=", "<", "<=", ">", ">=", "in", "!in":
		default:
			if res != nil {
				return res
			}
			return a
		}
		p.next()
		b := p.parseAdd()
		var c *Expr
		if op == "!in" {
			c = &Expr{Op: "!", Args: []*Expr{{Op: "in", Args: []*Expr{a, b}}}}
		} else {
			c = &Expr{Op: op, Args: []*Expr{a, b}}
		}
		if res == nil {
			res = c
		} else {
			res = &Expr{Op: "&&", Args: []*Expr{res, c}}
		}
		a = b
	}
}

func (p *parser) parseAdd() *Expr {
	a := p.parseMul()
	for p.peek() == "+" || p.peek() == "-" {
		op := p.next()
		b := p.parseMul()
		a = &Expr{Op: op, Args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) parseMul() *Expr {
	a := p.parseUnary()
	for p.peek() == "*" || p.peek() == "/" || p.peek() == "%" {
		op := p.next()
		b := p.parseUnary()
		a = &Expr{Op: op, Args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) parseUnary() *Expr {
	switch p.peek() {
	case "!":
		p.next()
		return &Expr{Op: "!", Args: []*Expr{p.parseUnary()}}
	case "-":
		p.next()
		return &Expr{Op: "neg", Args: []*Expr{p.parseUnary()}}
	case "*":
		p.next()
		return &Expr{Op: "deref", Args: []*Expr{p.parseUnary()}}
	case "&":
		p.next()
		return &Expr{Op: "addr", Args: []*Expr{p.parseUnary()}}
	case "forall", "exists":
		return p.parseQuant()
	}
	return p.parsePostfix()
}

// functions whose first argument is a type
var typeArgFuns = map[string]bool{"allmap": true, "mapif": true, "fieldif": true, "allfield": true, "cells": true, "elemsif": true, "allelems": true, "zeroof": true, "box": true, "istype": true, "unbox": true, "chanif": true, "tagof": true, "elemsof": true, "cellif": true, "contentof": true, "addrif": true, "ext": true, "heapdom": true, "heapvals": true, "mk": true}

func (p *parser) parsePostfix() *Expr {
	a := p.parsePrimary()
	for {
		switch p.peek() {
		case ".":
			p.next()
			if p.accept("(") {
				t := p.parseType()
				p.expect(")")
				a = &Expr{Op: "tassert", Args: []*Expr{a}, Typ: t}
				continue
			}
			n := p.next()
			a = &Expr{Op: "sel", Name: n, Args: []*Expr{a}}
		case "[":
			p.next()
			// slice expression x[a:b]
			var lo, hi *Expr
			if p.peek() != ":" {
				lo = p.parseExpr()
			}
			if p.accept(":") {
				if p.peek() != "]" {
					hi = p.parseExpr()
				}
				p.expect("]")
				a = &Expr{Op: "slice", Args: []*Expr{a, lo, hi}}
				continue
			}
			if p.accept("=") {
				// store a[i = v]
				v := p.parseExpr()
				p.expect("]")
				a = &Expr{Op: "store", Args: []*Expr{a, lo, v}}
				continue
			}
			p.expect("]")
			a = &Expr{Op: "idx", Args: []*Expr{a, lo}}
		default:
			return a
		}
	}
}

func (p *parser) parsePrimary() *Expr {
	t := p.next()
	switch {
	case t == "(":
		e := p.parseExpr()
		p.expect(")")
		return e
	case t == "":
		p.fail("unexpected end")
	case t[0] == '"':
		return &Expr{Op: "str", Name: t}
	case unicode.IsDigit(rune(t[0])):
		if strings.Contains(t, ".") {
			return &Expr{Op: "real", Name: t}
		}
		return &Expr{Op: "int", Name: t}
	case isIdent(t):
		if p.peek() == "(" {
			p.next()
			e := &Expr{Op: "call", Name: t}
			if typeArgFuns[t] {
				e.Typ = p.parseType()
				if p.peek() == "," {
					p.next()
				}
			}
			for p.peek() != ")" {
				e.Args = append(e.Args, p.parseExpr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return e
		}
		return &Expr{Op: "id", Name: t}
	}
	p.fail("unexpected token %q", t)
	return nil
}

func parseExprStr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	t, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{t: t, src: s}
	e = p.parseExpr()
	if p.i != len(p.t) {
		p.fail("trailing tokens %q", p.peek())
	}
	e.Src = s
	return e, nil
}

// ---- contract files

var clauseKw = map[string]bool{"requires": true, "langrule": true, "ensures": true, "modifies": true, "inv": true, "crash": true, "mid": true,
	"always": true, "ontick": true, "onrecv": true, "onstart": true, "maypanic": true, "pure": true, "noreturn": true, "inline": true, "noframe": true, "opt": true, "let": true, "hint": true, "repeats": true}
var topKw = map[string]bool{"func": true, "extern": true, "macro": true, "recfun": true, "fun": true, "define": true, "ghost": true, "smt": true,
	"lemma": true, "axiom": true, "guard": true, "frozen": true, "addressed": true}

func LoadContracts(p *Program, dir string) (*DB, error) {
	db := &DB{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Funs: map[string]*RecFun{}, Ghosts: map[string]types.Type{}, ghostTE: map[string]*TypeExpr{}, GhostOf: map[string][]string{}, P: p}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	if len(files) == 0 {
		return nil, fmt.Errorf("no contracts in %s", dir)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := db.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	for n, te := range db.ghostTE {
		t, err := db.resolveType(te, nil)
		if err != nil {
			return nil, fmt.Errorf("ghost %s: %v", n, err)
		}
		db.Ghosts[n] = t
	}
	return db, nil
}

type rawClause struct {
	kw   string
	text string
	line int
}

func (db *DB) parseFile(name, src string) (err error) {
	var raws []rawClause
	for i, ln := range strings.Split(src, "\n") {
		if j := strings.Index(ln, "//"); j >= 0 && !strings.Contains(ln[:j], "\"") {
			ln = ln[:j]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if j := strings.IndexAny(t, " \t["); j >= 0 {
			w = t[:j]
		}
		if clauseKw[w] || topKw[w] {
			raws = append(raws, rawClause{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else if len(raws) > 0 {
			raws[len(raws)-1].text += "\n" + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", name, i+1, t)
		}
	}
	var cur *Contract
	for _, r := range raws {
		e := func(err error) error { return fmt.Errorf("%s:%d: %v", name, r.line, err) }
		if topKw[r.kw] {
			c, err := db.parseTop(r, name)
			if err != nil {
				return e(err)
			}
			if c != nil {
				cur = c
			} else if r.kw != "func" && r.kw != "extern" {
				cur = nil
			}
			continue
		}
		if cur == nil {
			return e(fmt.Errorf("clause %q outside a contract", r.kw))
		}
		if err := db.parseClause(cur, r, name); err != nil {
			return e(err)
		}
	}
	return nil
}

func labelsOf(s string) (labels []string, rest string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		if j := strings.Index(s, "]"); j >= 0 {
			for _, l := range strings.Split(s[1:j], ",") {
				labels = append(labels, strings.TrimSpace(l))
			}
			return labels, strings.TrimSpace(s[j+1:])
		}
	}
	return nil, s
}

func (db *DB) parseTop(r rawClause, file string) (c *Contract, err error) {
	defer func() {
		if x := recover(); x != nil {
			if pe, ok := x.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(x)
		}
	}()
	switch r.kw {
	case "smt":
		db.Smt = append(db.Smt, r.text)
		return nil, nil
	case "addressed":
		t := strings.TrimSpace(r.text)
		j := strings.LastIndex(t, ".")
		db.Addressed = append(db.Addressed, Guard{Type: t[:j], Field: t[j+1:]})
		return nil, nil
	case "frozen":
		t := strings.TrimSpace(r.text)
		j := strings.LastIndex(t, ".")
		db.Frozen = append(db.Frozen, Guard{Type: t[:j], Field: t[j+1:]})
		return nil, nil
	case "guard":
		f := strings.Fields(r.text) // [label] Type.Field by Lock
		prop := guardProp
		if len(f) > 0 && strings.HasPrefix(f[0], "[") {
			prop, f = strings.Trim(f[0], "[]"), f[1:]
		}
		if len(f) != 3 || f[1] != "by" {
			return nil, fmt.Errorf("guard T.f by lock")
		}
		j := strings.LastIndex(f[0], ".")
		db.Guards = append(db.Guards, Guard{f[0][:j], f[0][j+1:], f[2], prop})
		return nil, nil
	case "func", "extern":
		// key (params) [returns (results)]  -- key may contain parentheses
		t := r.text
		key, rest := splitKey(t)
		c := &Contract{Key: key, Extern: r.kw == "extern", File: file, Line: r.line, Opts: map[string]string{}}
		toks, err := lex(rest)
		if err != nil {
			return nil, err
		}
		p := &parser{t: toks, src: rest}
		p.expect("(")
		for p.peek() != ")" {
			n := p.next()
			c.Params = append(c.Params, n)
			if p.peek() != "," && p.peek() != ")" {
				c.PTypes = append(c.PTypes, p.parseType())
			} else {
				c.PTypes = append(c.PTypes, nil)
			}
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		if p.accept("returns") {
			p.expect("(")
			for p.peek() != ")" {
				c.Results = append(c.Results, p.next())
				if p.peek() != "," && p.peek() != ")" {
					c.RTypes = append(c.RTypes, p.parseType())
				} else {
					c.RTypes = append(c.RTypes, nil)
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
		if p.i != len(p.t) {
			p.fail("trailing %q", p.peek())
		}
		if db.Contracts[key] != nil {
			return nil, fmt.Errorf("duplicate contract for %s", key)
		}
		db.Contracts[key] = c
		db.Order = append(db.Order, key)
		return c, nil
	case "macro":
		j := strings.Index(r.text, "=")
		head := r.text[:j]
		toks, err := lex(head)
		if err != nil {
			return nil, err
		}
		p := &parser{t: toks, src: head}
		m := &Macro{Name: p.next()}
		p.expect("(")
		for p.peek() != ")" {
			m.Args = append(m.Args, p.next())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		m.E, err = parseExprStr(r.text[j+1:])
		if err != nil {
			return nil, err
		}
		if db.Macros[m.Name] != nil || db.Funs[m.Name] != nil {
			return nil, fmt.Errorf("duplicate macro %s", m.Name)
		}
		db.Macros[m.Name] = m
		return nil, nil
	case "ghost":
		toks, err := lex(r.text)
		if err != nil {
			return nil, err
		}
		p := &parser{t: toks, src: r.text}
		n := p.next()
		if db.ghostTE[n] != nil {
			return nil, fmt.Errorf("duplicate ghost %s", n)
		}
		db.ghostTE[n] = p.parseType()
		if p.accept("of") {
			k := ""
			for p.i < len(p.t) {
				k += p.next()
			}
			db.GhostOf[k] = append(db.GhostOf[k], n)
		}
		return nil, nil
	case "recfun", "fun", "define":
		toks, err := lex(r.text)
		if err != nil {
			return nil, err
		}
		p := &parser{t: toks, src: r.text}
		f := &RecFun{Name: p.next(), Kind: r.kw}
		p.expect("(")
		if p.peek() != ")" {
			f.Vars = p.parseVars()
		}
		p.expect(")")
		f.Ret = p.parseType()
		if r.kw != "fun" {
			p.expect("=")
			f.E = p.parseExpr()
		}
		if p.i != len(p.t) {
			p.fail("trailing %q", p.peek())
		}
		if db.Funs[f.Name] != nil || db.Macros[f.Name] != nil {
			return nil, fmt.Errorf("duplicate function %s", f.Name)
		}
		db.Funs[f.Name] = f
		db.FunOrder = append(db.FunOrder, f.Name)
		return nil, nil
	case "lemma", "axiom":
		labels, rest := labelsOf(r.text)
		toks, err := lex(rest)
		if err != nil {
			return nil, err
		}
		p := &parser{t: toks, src: rest}
		l := &Lemma{Name: p.next(), Labels: labels, Axiom: r.kw == "axiom", Src: r.text}
		p.expect("(")
		if p.peek() != ")" {
			l.Vars = p.parseVars()
		}
		p.expect(")")
		if p.accept("induct") {
			l.Induct = p.next()
		}
		if p.accept("limited") {
			l.Limited = true // instances are not unfolded further
		}
		if p.accept("using") {
			for {
				l.Uses = append(l.Uses, p.next())
				if !p.accept(",") {
					break
				}
			}
		}
		p.expect("::")
		for p.peek() == "{" {
			p.next()
			var pat []*Expr
			for {
				pat = append(pat, p.parseExpr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			l.Pats = append(l.Pats, pat)
		}
		l.E = p.parseExpr()
		if p.i != len(p.t) {
			p.fail("trailing %q", p.peek())
		}
		db.Lemmas = append(db.Lemmas, l)
		return nil, nil
	}
	return nil, fmt.Errorf("bad clause %s", r.kw)
}

// splitKey splits "(*storage.Memory).Get(m, x)" into key and parameter part.
func splitKey(t string) (string, string) {
	i := 0
	if strings.HasPrefix(t, "(") {
		i = strings.Index(t, ")") + 1
	}
	j := strings.Index(t[i:], "(")
	return strings.TrimSpace(t[:i+j]), t[i+j:]
}

func (db *DB) parseClause(c *Contract, r rawClause, file string) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if pe, ok := x.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(x)
		}
	}()
	switch r.kw {
	case "pure":
		c.Pure = true
		return nil
	case "noreturn":
		c.NoReturn = true
		return nil
	case "inline":
		c.Inline = true
		return nil
	case "noframe":
		c.Noframe = true
		return nil
	case "opt":
		f := strings.SplitN(r.text, " ", 2)
		v := ""
		if len(f) > 1 {
			v = f[1]
		}
		c.Opts[f[0]] = v
		return nil
	}
	labels, rest := labelsOf(r.text)
	cl := &Clause{Kind: r.kw, Labels: labels, Src: strings.Join(strings.Fields(rest), " "), File: file, Line: r.line}
	if r.kw == "repeats" {
		c.Repeats = cl
		return nil
	}
	if r.kw == "ontick" {
		cl.Event = strings.TrimSpace(rest)
		c.OnTick = append(c.OnTick, cl)
		return nil
	}
	if r.kw == "onstart" {
		cl.Event = strings.TrimSpace(rest)
		c.OnStart = append(c.OnStart, cl)
		return nil
	}
	if r.kw == "onrecv" {
		// onrecv <channel>: <event>
		i := strings.LastIndex(rest, ":")
		if i < 0 {
			return fmt.Errorf("onrecv channel: event")
		}
		cl.Event = strings.TrimSpace(rest[i+1:])
		rest = rest[:i]
	}
	if r.kw == "modifies" {
		toks, err := lex(rest)
		if err != nil {
			return err
		}
		p := &parser{t: toks, src: rest}
		for {
			e := p.parseExpr()
			c.Mods = append(c.Mods, &Clause{Kind: "modifies", Labels: labels, E: e, Src: cl.Src, File: file, Line: r.line})
			if !p.accept(",") {
				break
			}
		}
		if p.i != len(p.t) {
			p.fail("trailing %q", p.peek())
		}
		return nil
	}
	toks, err := lex(rest)
	if err != nil {
		return err
	}
	p := &parser{t: toks, src: rest}
	// optional name: ident ':' (not '::')
	if isIdent(p.peek()) && p.peekN(1) == ":" {
		cl.Name = p.next()
		p.next()
	}
	if (r.kw == "inv" || r.kw == "always" || r.kw == "hint") && p.peek() == "(" {
		// roles?
		save := p.i
		if roles, ok := p.tryRoles(); ok {
			cl.Roles = roles
		} else {
			p.i = save
		}
	}
	if r.kw == "let" {
		cl.Name = p.next()
		p.expect("=")
	}
	cl.E = p.parseExpr()
	if p.i != len(p.t) {
		p.fail("trailing %q", p.peek())
	}
	switch r.kw {
	case "langrule":
		c.LangRules = append(c.LangRules, cl)
	case "requires":
		c.Requires = append(c.Requires, cl)
	case "ensures":
		c.Ensures = append(c.Ensures, cl)
	case "inv":
		c.Invs = append(c.Invs, cl)
	case "crash":
		c.Crash = append(c.Crash, cl)
	case "mid":
		c.Mids = append(c.Mids, cl)
	case "always":
		c.Always = append(c.Always, cl)
	case "onrecv":
		c.OnRecv = append(c.OnRecv, cl)
	case "maypanic":
		c.MayPanic = append(c.MayPanic, cl)
	case "let":
		c.Let = append(c.Let, cl)
	case "hint":
		c.Hints = append(c.Hints, cl)
	}
	return nil
}

func (p *parser) tryRoles() (roles []Role, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(parseErr); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	p.expect("(")
	for {
		n := p.next()
		if !isIdent(n) {
			return nil, false
		}
		r := Role{Name: n}
		switch p.peek() {
		case "iter", "outerit", "toploop", "inloop":
			r.Kind = p.next()
		case "seq", "outerseq":
			r.Kind = p.next()
			r.Typ = p.parseType()
		case "visited", "outervis":
			r.Kind = p.next()
			r.Typ = p.parseType()
		case "ranged":
			r.Kind = p.next()
			r.Typ = p.parseType()
		default:
			r.Kind = "value"
			r.Typ = p.parseType()
		}
		roles = append(roles, r)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if !p.accept("::") {
		return nil, false
	}
	return roles, true
}

// ---- type resolution

func (db *DB) resolveType(te *TypeExpr, tsub map[string]types.Type) (types.Type, error) {
	switch te.Op {
	case "unit":
		return types.NewStruct(nil, nil), nil
	case "ptr":
		t, err := db.resolveType(te.Args[0], tsub)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case "slice":
		t, err := db.resolveType(te.Args[0], tsub)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case "chan":
		t, err := db.resolveType(te.Args[0], tsub)
		if err != nil {
			return nil, err
		}
		return types.NewChan(types.SendRecv, t), nil
	case "map":
		k, err := db.resolveType(te.Args[0], tsub)
		if err != nil {
			return nil, err
		}
		e, err := db.resolveType(te.Args[1], tsub)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, e), nil
	case "set", "arr":
		k, err := db.resolveType(te.Args[0], tsub)
		if err != nil {
			return nil, err
		}
		if te.Op == "set" {
			return &specType{name: "set(" + typeKey(k) + ")", key: k, elem: types.Typ[types.Bool]}, nil
		}
		e, err := db.resolveType(te.Args[1], tsub)
		if err != nil {
			return nil, err
		}
		return &specType{name: "arr(" + typeKey(k) + "," + typeKey(e) + ")", key: k, elem: e}, nil
	case "inst":
		var args []types.Type
		for _, a := range te.Args {
			t, err := db.resolveType(a, tsub)
			if err != nil {
				return nil, err
			}
			args = append(args, t)
		}
		t, err := db.lookupNamed(te.Name)
		if err != nil {
			return nil, err
		}
		return types.Instantiate(nil, t, args, false)
	case "name":
		if t, ok := tsub[te.Name]; ok {
			return t, nil
		}
		switch te.Name {
		case "real":
			return types.Typ[types.Float64], nil
		case "any":
			return types.NewInterfaceType(nil, nil), nil
		case "error":
			return types.Universe.Lookup("error").Type(), nil
		case "ref":
			return types.Typ[types.Int], nil
		case "Blob", "Any":
			return &specType{name: te.Name, sort: te.Name}, nil
		}
		if o := types.Universe.Lookup(te.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
		return db.lookupNamed(te.Name)
	}
	return nil, fmt.Errorf("bad type")
}

func (db *DB) lookupNamed(name string) (types.Type, error) {
	j := strings.LastIndex(name, ".")
	if j < 0 {
		// an uninterpreted specification sort
		if strings.HasPrefix(name, "S_") || strings.HasPrefix(name, "TP_") {
			return &specType{name: name, sort: name}, nil
		}
		return nil, fmt.Errorf("unknown type %s", name)
	}
	pk, tn := name[:j], name[j+1:]
	for path, p := range db.P.TPkgs {
		if path == pk || shortPath(path) == pk {
			if o := p.Scope().Lookup(tn); o != nil {
				return o.Type(), nil
			}
		}
	}
	for _, p := range db.P.byName[pk] {
		if o := p.Scope().Lookup(tn); o != nil {
			return o.Type(), nil
		}
	}
	return nil, fmt.Errorf("unknown type %s", name)
}
