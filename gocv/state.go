package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Values of the symbolic executor

// Val is a *Term (scalars, references, sequence and map values) or a SliceV /
// MapV (views on mutable cells) or a *FuncV.
type Val interface{}

// SliceV is a slice whose backing store is a mutable cell.
type SliceV struct {
	cell    int
	off, ln *Term
}

// MapV is a local mutable map.
type MapV struct{ cell int }

// NilV is a slice value whose nil-ness is known.
type NilV struct{ t, isnil *Term }

func plain(v Val) Val {
	if n, ok := v.(*NilV); ok {
		return n.t
	}
	return v
}

type FuncV struct {
	lit *ast.FuncLit
}

type Cell struct {
	content *Term
	frozen  string // non-empty: the content was captured as a value; writing is refused
	shared  string // non-empty: another slice may alias
	used    bool   // appended to once
	owner   string // heap component the cell aliases (bytes.Buffer.Bytes)
	ownerOb *Term
	birth   int
	parent  int    // cell this one was appended from
	capKey  string // the field that alone refers to the cell since it was stored there
	capObj  *Term
	loads   int // how often fields capKey were read since
}

type factNode struct {
	t      *Term
	branch bool
	next   *factNode
	n      int
}

type State struct {
	vars   map[types.Object]Val
	cells  map[int]*Cell
	heap   map[string]*Term
	facts  *factNode
	rng    map[*Term][2]*big.Int
	defers []deferRec
	seen   map[int]*Term
}

type deferRec struct {
	call *ast.CallExpr
	args []Val
	fn   Val
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]Val, len(s.vars)), cells: make(map[int]*Cell, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), facts: s.facts, rng: make(map[*Term][2]*big.Int, len(s.rng)), seen: make(map[int]*Term, len(s.seen))}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.rng {
		n.rng[k] = v
	}
	for k, v := range s.seen {
		n.seen[k] = v
	}
	n.defers = append([]deferRec{}, s.defers...)
	return n
}

func (s *State) cell(id int) *Cell { return s.cells[id] }

func (s *State) updCell(id int, f func(c *Cell)) {
	c := *s.cells[id]
	f(&c)
	s.cells[id] = &c
}

func (s *State) addFact(t *Term, branch bool) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		if branch {
			// keep the branch condition as one unit for path conditions
			s.push(t, true)
			for _, a := range t.args {
				s.note(a)
			}
			return
		}
		for _, a := range t.args {
			s.addFact(a, false)
		}
		return
	}
	s.push(t, branch)
	if t.op == "not" && t.args[0].op == "or" {
		for _, a := range t.args[0].args {
			s.note(mkNot(a))
		}
		return
	}
	s.note(t)
}

func (s *State) push(t *Term, branch bool) {
	n := 1
	if s.facts != nil {
		n = s.facts.n + 1
	}
	s.facts = &factNode{t, branch, s.facts, n}
}

// known reports whether t (or its negation) is literally among the facts.
func (s *State) known(t *Term) (bool, bool) {
	nt := mkNot(t)
	for f := s.facts; f != nil; f = f.next {
		if f.t == t {
			return true, true
		}
		if f.t == nt {
			return false, true
		}
		if f.t.op == "and" {
			for _, a := range f.t.args {
				if a == t {
					return true, true
				}
				if a == nt {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (s *State) factList() []*Term {
	var r []*Term
	for f := s.facts; f != nil; f = f.next {
		r = append(r, f.t)
	}
	// reverse
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// note derives ranges from a fact.
func (s *State) note(t *Term) {
	switch t.op {
	case "le":
		s.noteLe(mkSub(t.args[0], t.args[1]))
	case "lt":
		s.noteLe(mkAdd(mkSub(t.args[0], t.args[1]), mkI(1)))
	case "eq":
		if t.args[0].sort == "Int" {
			d := mkSub(t.args[0], t.args[1])
			s.noteLe(d)
			s.noteLe(mkSub(mkI(0), d))
		}
	}
}

// noteLe records d <= 0.
func (s *State) noteLe(d *Term) {
	l := toLin(d)
	k := l.k
	l.k = new(big.Int)
	// whole linear part: lin <= -k
	key := fromLin(l)
	s.tighten(key, nil, new(big.Int).Neg(k))
	neg := mkSub(mkI(0), key)
	s.tighten(neg, k, nil)
	// every atom
	for a, c := range l.c {
		rest := new(big.Int).Neg(k) // c*a <= -k - sum(others)
		ok := true
		for b, cb := range l.c {
			if b == a {
				continue
			}
			lo, hi := s.bounds(b)
			v := lo
			if cb.Sign() < 0 {
				v = hi
			}
			if v == nil {
				ok = false
				break
			}
			rest.Sub(rest, new(big.Int).Mul(cb, v))
		}
		if !ok {
			continue
		}
		if c.Sign() > 0 {
			q := new(big.Int)
			q.Div(rest, c) // floor for positive c
			s.tighten(a, nil, q)
		} else if c.Sign() < 0 {
			// a >= ceil(rest/c) with c negative:  c*a <= rest  <=> a >= rest/c
			nc := new(big.Int).Neg(c)
			nr := new(big.Int).Neg(rest)
			// a >= nr/nc
			q, m := new(big.Int).DivMod(nr, nc, new(big.Int))
			if m.Sign() != 0 {
				q.Add(q, big.NewInt(1))
			}
			s.tighten(a, q, nil)
		}
	}
}

func (s *State) tighten(t *Term, lo, hi *big.Int) {
	if t.op == "int" {
		return
	}
	r := s.rng[t]
	if lo != nil && (r[0] == nil || lo.Cmp(r[0]) > 0) {
		r[0] = lo
	}
	if hi != nil && (r[1] == nil || hi.Cmp(r[1]) < 0) {
		r[1] = hi
	}
	s.rng[t] = r
}

// bounds combines typing ranges with the state's facts.
func (s *State) bounds(t *Term) (*big.Int, *big.Int) {
	lo, hi := interval(t)
	if r, ok := s.rng[t]; ok {
		if r[0] != nil && (lo == nil || r[0].Cmp(lo) > 0) {
			lo = r[0]
		}
		if r[1] != nil && (hi == nil || r[1].Cmp(hi) < 0) {
			hi = r[1]
		}
	}
	if t.op == "add" || t.op == "mul" {
		l := toLin(t)
		k := l.k
		l.k = new(big.Int)
		if key := fromLin(l); key != t {
			if r, ok := s.rng[key]; ok {
				if r[0] != nil {
					v := new(big.Int).Add(r[0], k)
					if lo == nil || v.Cmp(lo) > 0 {
						lo = v
					}
				}
				if r[1] != nil {
					v := new(big.Int).Add(r[1], k)
					if hi == nil || v.Cmp(hi) < 0 {
						hi = v
					}
				}
			}
		}
		sl, sh := new(big.Int).Set(k), new(big.Int).Set(k)
		for a, c := range l.c {
			al, ah := s.bounds(a)
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if sl != nil {
				if al == nil {
					sl = nil
				} else {
					sl.Add(sl, new(big.Int).Mul(c, al))
				}
			}
			if sh != nil {
				if ah == nil {
					sh = nil
				} else {
					sh.Add(sh, new(big.Int).Mul(c, ah))
				}
			}
		}
		if sl != nil && (lo == nil || sl.Cmp(lo) > 0) {
			lo = sl
		}
		if sh != nil && (hi == nil || sh.Cmp(hi) < 0) {
			hi = sh
		}
	}
	if t.op == "ite" {
		l1, h1 := s.bounds(t.args[1])
		l2, h2 := s.bounds(t.args[2])
		if l1 != nil && l2 != nil {
			v := l1
			if l2.Cmp(v) < 0 {
				v = l2
			}
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		if h1 != nil && h2 != nil {
			v := h1
			if h2.Cmp(v) > 0 {
				v = h2
			}
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
	}
	if t.op == "div" && t.args[1].op == "int" && t.args[1].num.Sign() > 0 {
		l1, h1 := s.bounds(t.args[0])
		if l1 != nil {
			v := new(big.Int).Div(l1, t.args[1].num)
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		if h1 != nil {
			v := new(big.Int).Div(h1, t.args[1].num)
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
	}
	if t.op == "nlmul" {
		l1, h1 := s.bounds(t.args[0])
		for _, f := range t.args[1:] {
			l2, h2 := s.bounds(f)
			if l1 == nil || h1 == nil || l2 == nil || h2 == nil {
				return lo, hi
			}
			var cs []*big.Int
			for _, a := range []*big.Int{l1, h1} {
				for _, b := range []*big.Int{l2, h2} {
					cs = append(cs, new(big.Int).Mul(a, b))
				}
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].Cmp(cs[j]) < 0 })
			l1, h1 = cs[0], cs[3]
		}
		if l1 != nil && (lo == nil || l1.Cmp(lo) > 0) {
			lo = l1
		}
		if h1 != nil && (hi == nil || h1.Cmp(hi) < 0) {
			hi = h1
		}
	}
	return lo, hi
}

// wrap applies machine-integer wrapping, dropped when the state's facts show
// that the value is in range.
func (s *State) wrap(kind string, t *Term) *Term {
	w := mkWrap(kind, t)
	if w.op == "wrap" || w.op == "mod" {
		k := wrapKinds[kind]
		lo, hi := s.bounds(t)
		if lo != nil && hi != nil && lo.Cmp(k[0]) >= 0 && hi.Cmp(k[1]) <= 0 {
			return t
		}
	}
	return w
}

// ---------------------------------------------------------------------------
// sorts of Go types

func intKind(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return "int64"
	case types.Int32:
		return "int32"
	case types.Int16:
		return "int16"
	case types.Int8:
		return "int8"
	case types.Uint, types.Uint64, types.Uintptr:
		return "uint64"
	case types.Uint32:
		return "uint32"
	case types.Uint16:
		return "uint16"
	case types.Uint8:
		return "uint8"
	}
	return ""
}

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsFloat != 0:
			return "F"
		case i&types.IsString != 0:
			return "Seq_B"
		case u.Kind() == types.UntypedNil:
			return "U"
		}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan, *types.Struct:
		return "U"
	case *types.Slice:
		return seqSortOf(u.Elem())
	case *types.Array:
		return seqSortOf(u.Elem())
	case *types.Map:
		return mapSort(sortOf(u.Key()), sortOf(u.Elem()))
	case *types.Tuple:
		return "U"
	}
	panic(bug("no sort for type %s", t))
}

func seqSortOf(el types.Type) string {
	if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "Seq_B"
	}
	return "Seq_" + sortOf(el)
}

func mkI2F(n *Term) *Term { return mkApp("i2f", "F", n) }

func zeroTerm(t types.Type) *Term {
	s := sortOf(t)
	switch s {
	case "Bool":
		return tFalse
	case "Int":
		return mkI(0)
	case "F":
		return mkI2F(mkI(0))
	case "U":
		return tNil
	}
	if isSeq(s) {
		if a, ok := t.Underlying().(*types.Array); ok {
			return mkRep(s, mkI(a.Len()), zeroTerm(a.Elem()))
		}
		return mkEmpty(s)
	}
	if isMap(s) {
		return mkMEmpty(s)
	}
	panic(bug("no zero for %s", t))
}

var typeTags = map[string]int64{}
var tagNames []string

func tagOf(t types.Type) int64 {
	n := typeKey(t)
	if k, ok := typeTags[n]; ok {
		return k
	}
	tagNames = append(tagNames, n)
	typeTags[n] = int64(len(tagNames))
	return typeTags[n]
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "pdf" || p.Name() == "main" {
			return ""
		}
		return p.Name()
	})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' {
			b.WriteRune(c)
		} else if c == '*' {
			b.WriteString("P.")
		} else {
			b.WriteString("_")
		}
	}
	return b.String()
}

// mkTyp is the dynamic-type tag of an interface value
func mkTyp(u *Term) *Term {
	if u == tNil {
		return mkI(0)
	}
	if u.op == "app" && (strings.HasPrefix(u.name, "box_") || strings.HasPrefix(u.name, "new_")) {
		if k, ok := boxTags[u.name]; ok {
			return mkI(k)
		}
	}
	if u.op == "ite" {
		return mkIte(u.args[0], mkTyp(u.args[1]), mkTyp(u.args[2]))
	}
	if k, ok := allocTag[u]; ok {
		return mkI(k)
	}
	return mkApp("typ", "Int", u)
}

var boxTags = map[string]int64{"new_regexp": 1000002}
var boxSort = map[string]string{} // box function -> payload sort
var allocTag = map[*Term]int64{}

// boxed reports how values of type t are represented inside an interface:
// pointers are the reference itself; everything else is boxed.
func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return true
	}
	return false
}

func mkBox(t types.Type, v *Term) *Term {
	if isRefType(t) {
		return v
	}
	if types.IsInterface(t) {
		return v
	}
	n := "box_" + sanitize(typeKey(t))
	boxTags[n] = tagOf(t)
	boxSort[n] = v.sort
	if v.op == "ite" {
		return mkIte(v.args[0], mkBox(t, v.args[1]), mkBox(t, v.args[2]))
	}
	if v.op == "app" && v.name == "un"+n && false {
		return v.args[0]
	}
	return mkApp(n, "U", v)
}

func mkUnbox(t types.Type, u *Term) *Term {
	if isRefType(t) || types.IsInterface(t) {
		return u
	}
	k := sanitize(typeKey(t))
	boxTags["box_"+k] = tagOf(t)
	boxSort["box_"+k] = sortOf(t)
	return reApp("unbox_"+k, sortOf(t), []*Term{u})
}

// ---------------------------------------------------------------------------
// birth stamps: a reference allocated at stamp s differs from every reference
// that is denoted by a term built only from symbols that existed before s.

var stampNow int
var varBirth = map[*Term]int{}
var allocStamp = map[*Term]int{}
var birthCache = map[int]int{}

func birthOf(t *Term) int {
	switch t.op {
	case "var":
		return varBirth[t]
	}
	if len(t.args) == 0 {
		return 0
	}
	if b, ok := birthCache[t.id]; ok {
		return b
	}
	m := 0
	for _, a := range t.args {
		if holdsNoRef(a.sort) {
			// picks among references but holds none
			continue
		}
		if b := birthOf(a); b > m {
			m = b
		}
	}
	birthCache[t.id] = m
	return m
}

func newVar(prefix, srt string) *Term {
	t := fresh(prefix, srt)
	varBirth[t] = stampNow
	return t
}

func newAlloc(prefix string) *Term {
	stampNow++
	t := fresh(prefix, "U")
	varBirth[t] = stampNow
	allocStamp[t] = stampNow
	distinctU[t] = true
	return t
}

// companionFn: functions whose value is an object that comes with their first
// argument, and was made after it.
var companionFn = map[string]bool{}

// stampOf is when an object was allocated at the earliest, if it is known.
func stampOf(t *Term) (int, bool) {
	if s, ok := allocStamp[t]; ok {
		return s, true
	}
	if t.op == "app" && companionFn[t.name] {
		return stampOf(t.args[0])
	}
	return 0, false
}

// refDistinct: allocation-based disequality
func refDistinct(a, b *Term) bool {
	if s, ok := stampOf(a); ok && a != b && b.op != "ite" && birthOf(b) < s {
		return true
	}
	if s, ok := stampOf(b); ok && a != b && a.op != "ite" && birthOf(a) < s {
		return true
	}
	return false
}

// ---------------------------------------------------------------------------

type unsup struct {
	msg string
	pos token.Pos
}

func (u unsup) Error() string { return u.msg }

func unsupported(pos token.Pos, f string, a ...interface{}) unsup {
	return unsup{fmt.Sprintf(f, a...), pos}
}
