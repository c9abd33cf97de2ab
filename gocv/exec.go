package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Obl is one proof obligation.
type Obl struct {
	fn, kind, label string
	where           string
	facts           []*Term
	goal            *Term
	props           []string
	seq             int
	trivial         bool
	vacuity         bool // a reachability check: must NOT be provable
	caseID          string
	bv              bool
	hints           []*Term
	selfLemma       *Term // induction: the function whose contract is being proved
	selfDec         []*Term
	// solver result
	status string
	solver string
	secs   float64
	output string
	smt    string
}

func (o *Obl) name() string {
	s := o.fn + "/" + o.kind
	if o.label != "" {
		s += ":" + o.label
	}
	return s
}

type Frame struct {
	fn       *types.Func
	decl     *ast.FuncDecl
	sig      *types.Signature
	named    []*types.Var
	parent   *Frame
	pos      token.Pos
	recovers bool
	path     string
	panics   []*Outcome
	ncalls   int
	lit      bool
}

const (
	oBreak = iota
	oContinue
	oReturn
	oPanic
)

type Outcome struct {
	kind int
	st   *State
	rets []Val
}

type Exec struct {
	callExpr *ast.CallExpr // the call being made
	rhs      ast.Expr      // the expression being assigned

	v            *Verifier
	fn           *types.Func
	con          *Contract
	key          string
	obls         []*Obl
	suppress     int
	frame        *Frame
	entry        *State
	params       []*types.Var
	pvals        []Val // entry values
	pcells       []int // cells of mutated parameters (-1)
	loopIDs      map[string]int
	nextCell     int
	decr         []*Term
	renames      map[string]string
	caseID       string
	caseSub      map[*Term]*Term
	labels       map[string]int
	nretry       int
	curLoop      []*loopCtx
	steps        int
	mods         []modLoc
	modAll       map[string]bool
	stampEntry   int
	usedFinals   map[int]bool
	keyedAt      map[*Term]*Term // the keys new objects were first put under
	hasTerm      bool
	pendingHints []*Term
	useHints     []*Term
	unattached   map[string]bool
	usedLoops    map[int]bool
	retCtr       int
	panicVal     *Term
	coverCases   bool
	recovered    bool
}

type loopCtx struct {
	seenID int
}

type modLoc struct {
	comp string
	obj  *Term
}

func (x *Exec) info() *types.Info { return x.v.p.info }

func (x *Exec) typeOf(e ast.Expr) types.Type {
	t := x.info().TypeOf(e)
	if t == nil {
		panic(unsupported(e.Pos(), "no type"))
	}
	return t
}

func (x *Exec) pos(p token.Pos) string { return x.v.p.posStr(p) }

// heap access -----------------------------------------------------------------

func (x *Exec) heapGet(st *State, comp string) *Term {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	srt, ok := x.v.compSort[comp]
	if !ok {
		panic(bug("unknown heap component %s", comp))
	}
	t := mkVar("H0!"+sanitize(comp), srt)
	return t
}

func (x *Exec) heapFn(st *State) func(string) *Term {
	return func(c string) *Term { return x.heapGet(st, c) }
}

// obligations -----------------------------------------------------------------

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos, props []string) {
	if x.suppress > 0 {
		st.addFact(goal, false)
		return
	}
	if goal.op == "and" && kind != "vacuity" {
		// one obligation per conjunct keeps failures specific
		for i, g := range goal.args {
			l := label
			if l != "" && len(goal.args) > 1 && kind != "safe" {
				l = fmt.Sprintf("%s.%d", label, i+1)
			}
			x.oblige(st, kind, l, g, pos, props)
		}
		return
	}
	if goal.op == "eq" && kind != "vacuity" && goal.args[0].sort == "Seq_B" {
		if g := x.updEq(st, goal.args[0], goal.args[1]); g != nil && g != tTrue {
			x.oblige(st, kind, label, g, pos, props)
			st.addFact(goal, false)
			return
		}
	}
	o := &Obl{fn: x.key, kind: kind, label: label, goal: goal, where: x.pos(pos), props: props, caseID: x.caseID, seq: len(x.obls)}
	if x.con != nil {
		o.bv = x.con.bv
	}
	if goal == tTrue {
		o.trivial = true
	} else if k, ok := st.known(goal); ok && k {
		o.trivial = true
	} else {
		lo, hi := (*big.Int)(nil), (*big.Int)(nil)
		if goal.op == "le" || goal.op == "lt" {
			lo, hi = st.bounds(mkSub(goal.args[0], goal.args[1]))
			_ = lo
			if hi != nil && (hi.Sign() < 0 || hi.Sign() == 0 && goal.op == "le") {
				o.trivial = true
			}
		}
		if !o.trivial {
			o.facts = st.factList()
			o.hints = append(append([]*Term{}, x.pendingHints...), x.useHints...)
		}
	}
	x.obls = append(x.obls, o)
	if goal != tFalse {
		st.addFact(goal, false)
	}
}

// updEq is a sufficient condition for the equality of two updates of one
// sequence at the same indices: the stored values are equal.
func (x *Exec) updEq(st *State, a, b *Term) *Term {
	isUpd := func(t *Term) bool { return t.op == "app" && t.name == "upd" }
	// a definition the contract reveals may be unfolded
	unfold := func(t *Term) *Term {
		d := x.v.specName[t.name]
		if t.op == "app" && d != nil && d.body != nil && d.con != nil && d.con.sealed && x.con != nil && x.con.reveal[d.name] {
			return instTerm(d, d.body, t.args)
		}
		return t
	}
	if isUpd(a) {
		b = unfold(b)
	} else if isUpd(b) {
		a = unfold(a)
	} else {
		return nil
	}
	memo := map[*Term]*Term{}
	a, b = st.pickIte(a, memo), st.pickIte(b, memo)
	g := tTrue
	for a != b {
		if !isUpd(a) || !isUpd(b) || a.args[1] != b.args[1] {
			return nil
		}
		g = mkAnd(g, mkEq(a.args[2], b.args[2]))
		a, b = a.args[0], b.args[0]
	}
	return g
}

// pickIte replaces conditionals whose condition the path decides.
func (st *State) pickIte(t *Term, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 || len(t.bound) > 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if t.op == "ite" {
		c := st.pickIte(t.args[0], memo)
		k, ok := st.known(c)
		if !ok && (c.op == "lt" || c.op == "le") {
			lo, hi := st.bounds(mkSub(c.args[0], c.args[1]))
			if hi != nil && (hi.Sign() < 0 || hi.Sign() == 0 && c.op == "le") {
				k, ok = true, true
			} else if lo != nil && (lo.Sign() > 0 || lo.Sign() == 0 && c.op == "lt") {
				k, ok = false, true
			}
		}
		if c == tTrue || c == tFalse {
			k, ok = c == tTrue, true
		}
		if ok {
			if k {
				r = st.pickIte(t.args[1], memo)
			} else {
				r = st.pickIte(t.args[2], memo)
			}
			memo[t] = r
			return r
		}
	}
	m := map[*Term]*Term{}
	for _, x := range t.args {
		if y := st.pickIte(x, memo); y != x {
			m[x] = y
		}
	}
	if len(m) > 0 {
		r = substTerm(t, m, map[*Term]*Term{})
	}
	memo[t] = r
	return r
}

// safe: a run-time check; inside a function that recovers, a failing check
// transfers control to the recover exit instead.
func (x *Exec) safe(st *State, label string, goal *Term, pos token.Pos) {
	if goal == tTrue {
		return
	}
	x.safeKind(st, "safe", label, goal, pos)
}

func (x *Exec) recFrame() *Frame {
	for f := x.frame; f != nil; f = f.parent {
		if f.recovers {
			return f
		}
	}
	return nil
}

func (x *Exec) safeKind(st *State, kind, label string, goal *Term, pos token.Pos) {
	if f := x.recFrame(); f != nil {
		if goal = x.fold(st, goal); goal == tTrue {
			return
		}
		ps := st.clone()
		ps.addFact(mkNot(goal), true)
		f.panics = append(f.panics, &Outcome{kind: oPanic, st: ps})
		st.addFact(goal, true)
		return
	}
	x.oblige(st, kind, label, goal, pos, nil)
}

// values ------------------------------------------------------------------------

func (x *Exec) newCell(st *State, content *Term) int {
	x.nextCell++
	stampNow++
	st.cells[x.nextCell] = &Cell{content: content, birth: stampNow}
	return x.nextCell
}

func (x *Exec) newSlice(st *State, content *Term) *SliceV {
	return &SliceV{x.newCell(st, content), mkI(0), mkLen(content)}
}

// term gives the value of v in st as a term (a snapshot).
func (x *Exec) term(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceV:
		c := st.cells[v.cell]
		if c == nil {
			panic(bug("missing cell"))
		}
		return mkSubSeq(c.content, v.off, mkAdd(v.off, v.ln))
	case *MapV:
		return st.cells[v.cell].content
	case *NilV:
		return v.t
	}
	panic(unsup{fmt.Sprintf("value of kind %T used as a term", v), token.NoPos})
}

// capture is term plus freezing: the value is stored somewhere by reference.
func (x *Exec) capture(st *State, v Val) *Term {
	switch w := v.(type) {
	case *SliceV:
		st.updCell(w.cell, func(c *Cell) { c.frozen, c.capKey = "captured", "" })
	case *MapV:
		st.updCell(w.cell, func(c *Cell) { c.frozen = "captured" })
	}
	return x.term(st, v)
}

func (x *Exec) conv(st *State, v Val, from, to types.Type) Val {
	if to == nil || from == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroTermNil(to)
	}
	if types.IsInterface(to) && !types.IsInterface(from) {
		if _, ok := v.(*FuncV); ok {
			return v
		}
		t := x.capture(st, v)
		if isRefType(from) {
			if ty := mkTyp(t); ty.op != "int" && t.op != "ite" {
				st.addFact(mkImp(mkNot(mkEq(t, tNil)), mkEq(ty, mkI(tagOf(from)))), false)
			}
			return t
		}
		return mkBox(from, t)
	}
	return v
}

// nonnil obligations for storing a value of a never-nil type
func (x *Exec) checkNonNil(st *State, t types.Type, v Val, pos token.Pos, what string) {
	if !x.v.nonnil[typeKey(t)] {
		return
	}
	tm := x.term(st, v)
	if tm.sort != "U" {
		return
	}
	x.safe(st, "nil "+typeKey(t)+" stored in "+what, mkNot(mkEq(tm, tNil)), pos)
}

func (x *Exec) assumeNonNil(st *State, t types.Type, tm *Term, guard *Term) {
	if x.v.nonnil[typeKey(t)] && tm.sort == "U" {
		g := mkImp(guard, mkNot(mkEq(tm, tNil)))
		if k, ok := st.known(g); !ok || !k {
			st.addFact(g, false)
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if inv := x.typeInv(pt.Elem(), tm); inv != nil {
			g := mkImp(mkAnd(guard, mkNot(mkEq(tm, tNil))), inv)
			if k, ok := st.known(g); !ok || !k {
				st.addFact(g, false)
			}
		}
	}
}

// typeInv: the invariant of an immutable type, on a value of it
func (x *Exec) typeInv(t types.Type, tm *Term) *Term {
	n, ok := x.v.cs.holds[typeKey(t)]
	if !ok {
		return nil
	}
	fn, ok := x.v.p.pkg.Scope().Lookup(n).(*types.Func)
	if !ok {
		panic(bug("type invariant of %s: no specification function %s", typeKey(t), n))
	}
	return x.v.applySpec(fn, []*Term{tm}, func(c string) *Term { panic(bug("type invariant %s reads the heap", n)) })
}

// build makes a value of an immutable type, whose invariant must hold
func (x *Exec) build(st *State, t types.Type, vals []*Term, pos token.Pos) *Term {
	r := x.v.newImm(t, vals)
	if inv := x.typeInv(t, r); inv != nil {
		x.safe(st, "invariant of "+typeKey(t), inv, pos)
	}
	return r
}

// havocTerm makes a fresh symbol of a Go type with its typing facts
func (x *Exec) freshOf(prefix string, t types.Type) *Term {
	v := newVar(prefix, sortOf(t))
	if k := intKind(t); k != "" {
		varRange[v] = wrapKinds[k]
	}
	return v
}

// merging -------------------------------------------------------------------------

func pathCond(f, base *factNode) *Term {
	var cs []*Term
	for ; f != nil && f != base; f = f.next {
		if f.branch {
			cs = append(cs, f.t)
		}
	}
	return mkAnd(cs...)
}

func commonBase(sts []*State) *factNode {
	fs := make([]*factNode, len(sts))
	for i, s := range sts {
		fs[i] = s.facts
	}
	for {
		same := true
		mn := -1
		for _, f := range fs {
			n := 0
			if f != nil {
				n = f.n
			}
			if f != fs[0] {
				same = false
			}
			if mn < 0 || n < mn {
				mn = n
			}
		}
		if same {
			return fs[0]
		}
		// step back the longest ones
		stepped := false
		for i, f := range fs {
			if f != nil && f.n > mn {
				fs[i] = f.next
				stepped = true
			}
		}
		if !stepped {
			for i, f := range fs {
				if f != nil {
					fs[i] = f.next
				}
			}
		}
	}
}

func iteChain(pcs []*Term, ts []*Term) *Term {
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = mkIte(pcs[i], ts[i], r)
	}
	return r
}

// merge joins several states (and value tuples) into one.
func (x *Exec) merge(sts []*State, vals [][]Val) (*State, []Val) {
	if len(sts) == 1 {
		if vals == nil {
			return sts[0], nil
		}
		return sts[0], vals[0]
	}
	base := commonBase(sts)
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = pathCond(s.facts, base)
	}
	n := &State{vars: map[types.Object]Val{}, cells: map[int]*Cell{}, heap: map[string]*Term{}, facts: base, rng: map[*Term][2]*big.Int{}, seen: map[int]*Term{}}
	n.addFact(mkOr(pcs...), false)
	for i, s := range sts {
		var extra []*Term
		for f := s.facts; f != base; f = f.next {
			if !f.branch {
				extra = append(extra, f.t)
			}
		}
		for j := len(extra) - 1; j >= 0; j-- {
			n.addFact(mkImp(pcs[i], extra[j]), false)
		}
	}
	// ranges common to all
	for t, r := range sts[0].rng {
		lo, hi := r[0], r[1]
		for _, s := range sts[1:] {
			q, ok := s.rng[t]
			if !ok {
				lo, hi = nil, nil
				break
			}
			if lo != nil && (q[0] == nil || q[0].Cmp(lo) < 0) {
				lo = q[0]
			}
			if hi != nil && (q[1] == nil || q[1].Cmp(hi) > 0) {
				hi = q[1]
			}
		}
		if lo != nil || hi != nil {
			n.rng[t] = [2]*big.Int{lo, hi}
		}
	}
	// cells
	ids := map[int]bool{}
	for _, s := range sts {
		for id := range s.cells {
			ids[id] = true
		}
	}
	var idl []int
	for id := range ids {
		idl = append(idl, id)
	}
	sort.Ints(idl)
	for _, id := range idl {
		var cs []*Cell
		var ts []*Term
		var ps []*Term
		for i, s := range sts {
			if c := s.cells[id]; c != nil {
				cs = append(cs, c)
				ts = append(ts, c.content)
				ps = append(ps, pcs[i])
			}
		}
		c := *cs[0]
		for _, d := range cs[1:] {
			if d.frozen != "" {
				c.frozen = d.frozen
			}
			if d.shared != "" {
				c.shared = d.shared
			}
			c.used = c.used || d.used
		}
		for _, d := range cs[1:] {
			if d.capKey != c.capKey || d.capObj != c.capObj {
				c.capKey = ""
			}
			if d.loads > c.loads {
				c.loads = d.loads
			}
		}
		if len(cs) < len(sts) {
			c.capKey = ""
		}
		c.content = iteChain(ps, ts)
		n.cells[id] = &c
	}
	// heap
	comps := map[string]bool{}
	for _, s := range sts {
		for c := range s.heap {
			comps[c] = true
		}
	}
	for _, c := range sortedKeys(comps) {
		var ts []*Term
		for _, s := range sts {
			ts = append(ts, x.heapGet(s, c))
		}
		n.heap[c] = mergeArr(pcs, ts)
	}
	for id := range sts[0].seen {
		var ts []*Term
		for _, s := range sts {
			if t := s.seen[id]; t != nil {
				ts = append(ts, t)
			}
		}
		if len(ts) == len(sts) {
			n.seen[id] = iteChain(pcs, ts)
		}
	}
	// variables
	var objs []types.Object
	for o := range sts[0].vars {
		all := true
		for _, s := range sts[1:] {
			if _, ok := s.vars[o]; !ok {
				all = false
				break
			}
		}
		if all {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		vs := make([]Val, len(sts))
		for i, s := range sts {
			vs[i] = s.vars[o]
		}
		n.vars[o] = x.mergeVal(n, sts, pcs, vs)
	}
	var rv []Val
	if vals != nil {
		for k := range vals[0] {
			vs := make([]Val, len(sts))
			for i := range sts {
				vs[i] = vals[i][k]
			}
			rv = append(rv, x.mergeVal(n, sts, pcs, vs))
		}
	}
	n.defers = sts[0].defers
	for _, s := range sts[1:] {
		if len(s.defers) != len(n.defers) {
			panic(unsup{"defer under a condition", token.NoPos})
		}
	}
	return n, rv
}

// mergeArr merges heap arrays, keeping common store chains apart from differing cells
func mergeArr(pcs []*Term, ts []*Term) *Term {
	same := true
	for _, t := range ts {
		if t != ts[0] {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	// peel stores at constant references down to a common base array
	type chain struct {
		idx []*Term
		m   map[*Term]*Term
		b   *Term
	}
	mkChain := func(t *Term) chain {
		c := chain{m: map[*Term]*Term{}}
		for t.op == "store" {
			if _, ok := c.m[t.args[1]]; !ok {
				c.m[t.args[1]] = t.args[2]
				c.idx = append(c.idx, t.args[1])
			}
			t = t.args[0]
		}
		c.b = t
		return c
	}
	var cs []chain
	for _, t := range ts {
		cs = append(cs, mkChain(t))
	}
	ok := true
	all := map[*Term]bool{}
	var idx []*Term
	for _, c := range cs {
		if c.b != cs[0].b {
			ok = false
		}
		for i := len(c.idx) - 1; i >= 0; i-- {
			if !all[c.idx[i]] {
				all[c.idx[i]] = true
				idx = append(idx, c.idx[i])
			}
		}
	}
	if ok {
		// indices must be pairwise distinct for the flattening to be exact
		for i := range idx {
			for j := i + 1; j < len(idx); j++ {
				if mkEq(idx[i], idx[j]) != tFalse {
					ok = false
				}
			}
		}
	}
	if ok {
		r := cs[0].b
		for _, k := range idx {
			var vs []*Term
			for _, c := range cs {
				v, has := c.m[k]
				if !has {
					v = mkSelect(c.b, k)
				}
				vs = append(vs, v)
			}
			r = mkStore(r, k, iteChain(pcs, vs))
		}
		return r
	}
	return iteChain(pcs, ts)
}

func (x *Exec) mergeVal(n *State, sts []*State, pcs []*Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	for i := range vs {
		vs[i] = plain(vs[i])
	}
	allTerm := true
	sameCell := true
	anyMap := false
	for _, v := range vs {
		switch w := v.(type) {
		case *Term:
			sameCell = false
		case *SliceV:
			allTerm = false
			if f, ok := vs[0].(*SliceV); !ok || f.cell != w.cell {
				sameCell = false
			}
		case *MapV:
			anyMap = true
			allTerm = false
			sameCell = false
		case nil:
			return nil
		default:
			panic(unsup{"merging function values", token.NoPos})
		}
	}
	if allTerm {
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, v.(*Term))
		}
		return iteChain(pcs, ts)
	}
	if sameCell {
		var os, ls []*Term
		for _, v := range vs {
			os = append(os, v.(*SliceV).off)
			ls = append(ls, v.(*SliceV).ln)
		}
		return &SliceV{vs[0].(*SliceV).cell, iteChain(pcs, os), iteChain(pcs, ls)}
	}
	var ts []*Term
	for i, v := range vs {
		ts = append(ts, x.term(sts[i], v))
	}
	t := iteChain(pcs, ts)
	// the cells merged may be written neither through the old nor the new name
	shared := ""
	cnt := map[int]int{}
	for i, v := range vs {
		var id int
		switch w := v.(type) {
		case *SliceV:
			id = w.cell
		case *MapV:
			id = w.cell
		default:
			shared = "merged with a value"
			continue
		}
		cnt[id]++
		// another variable that still refers to the cell?
		for o, u := range sts[i].vars {
			_ = o
			switch u := u.(type) {
			case *SliceV:
				if u.cell == id {
					cnt[id]++
				}
			case *MapV:
				if u.cell == id {
					cnt[id]++
				}
			}
		}
	}
	for _, c := range cnt {
		if c > 2 {
			shared = "merged alias"
		}
	}
	id := x.newCell(n, t)
	if shared != "" {
		n.updCell(id, func(c *Cell) { c.shared = shared })
	}
	if anyMap {
		return &MapV{id}
	}
	return &SliceV{id, mkI(0), mkLen(t)}
}

func sameVal(a, b Val) bool {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		return ok && p == q
	case *SliceV:
		q, ok := b.(*SliceV)
		return ok && *p == *q
	case *MapV:
		q, ok := b.(*MapV)
		return ok && *p == *q
	case *NilV:
		q, ok := b.(*NilV)
		return ok && *p == *q
	case *FuncV:
		q, ok := b.(*FuncV)
		return ok && p.lit == q.lit
	case nil:
		return b == nil
	}
	return false
}

// statements ------------------------------------------------------------------------

const maxFalls = 8

// block executes statements; several fall-through states may result.
func (x *Exec) block(list []ast.Stmt, st *State) (falls []*State, outs []*Outcome) {
	cur := []*State{st}
	for _, s := range list {
		var next []*State
		for _, c := range cur {
			f, o := x.stmt(s, c)
			next = append(next, f...)
			outs = append(outs, o...)
		}
		cur = next
		if len(cur) == 0 {
			break
		}
		if len(cur) > maxFalls {
			m, _ := x.merge(cur, nil)
			cur = []*State{m}
		}
	}
	return cur, outs
}

func (x *Exec) one(falls []*State) []*State {
	if len(falls) <= 1 {
		return falls
	}
	m, _ := x.merge(falls, nil)
	return []*State{m}
}

func (x *Exec) tick(pos token.Pos) {
	x.steps++
	if x.steps > 60000 {
		panic(unsupported(pos, "symbolic execution exceeds its step budget"))
	}
}

func (x *Exec) stmt(s ast.Stmt, st *State) ([]*State, []*Outcome) {
	x.tick(s.Pos())
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return []*State{st}, nil
	case *ast.BlockStmt:
		return x.block(s.List, st)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if x.isPanicCall(c) {
				x.safe(st, "panic", tFalse, s.Pos())
				return nil, nil
			}
			nst, _ := x.call(c, st)
			if nst == nil {
				return nil, nil
			}
			return []*State{nst}, nil
		}
		st = x.evalE(s.X, st).st
		return []*State{st}, nil
	case *ast.AssignStmt:
		return []*State{x.assign(s, st)}, nil
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		r := x.evalE(s.X, st)
		st = r.st
		t := x.typeOf(s.X)
		val := x.arithT(st, op, x.term(st, r.v), x.oneOf(t), t, s.Pos())
		return []*State{x.store(s.X, val, t, st, s.Pos())}, nil
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			if gd.Tok == token.CONST {
				continue
			}
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				nst, rv := x.call(vs.Values[0].(*ast.CallExpr), st)
				st = nst
				for i, id := range vs.Names {
					if o := x.info().Defs[id]; o != nil {
						st.vars[o] = rv[i]
					}
				}
				continue
			}
			for i, id := range vs.Names {
				o := x.info().Defs[id]
				if i < len(vs.Values) {
					r := x.evalE(vs.Values[i], st)
					st = r.st
					if o != nil {
						st.vars[o] = x.conv(st, r.v, x.typeOf(vs.Values[i]), o.Type())
					}
					continue
				}
				if o != nil {
					st.vars[o] = x.zeroVal(st, o.Type(), s.Pos())
				}
			}
		}
		return []*State{st}, nil
	case *ast.IfStmt:
		return x.ifStmt(s, st)
	case *ast.ForStmt:
		return x.forStmt(s, st)
	case *ast.RangeStmt:
		return x.rangeStmt(s, st)
	case *ast.SwitchStmt:
		return x.switchStmt(s, st)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(s, st)
	case *ast.BranchStmt:
		if s.Label != nil {
			panic(unsupported(s.Pos(), "labelled branch"))
		}
		switch s.Tok {
		case token.BREAK:
			return nil, []*Outcome{{kind: oBreak, st: st}}
		case token.CONTINUE:
			return nil, []*Outcome{{kind: oContinue, st: st}}
		}
		panic(unsupported(s.Pos(), "branch statement %s", s.Tok))
	case *ast.ReturnStmt:
		var rets []Val
		res := x.frame.sig.Results()
		if len(s.Results) == 0 {
			for i := 0; i < res.Len(); i++ {
				v, ok := st.vars[res.At(i)]
				if !ok {
					panic(unsupported(s.Pos(), "bare return without named results"))
				}
				rets = append(rets, v)
			}
		} else if len(s.Results) == 1 && res.Len() > 1 {
			nst, rv := x.call(ast.Unparen(s.Results[0]).(*ast.CallExpr), st)
			if nst == nil {
				return nil, nil
			}
			st = nst
			tup := x.typeOf(s.Results[0]).(*types.Tuple)
			for i, v := range rv {
				rets = append(rets, x.conv(st, v, tup.At(i).Type(), res.At(i).Type()))
			}
		} else {
			for i, e := range s.Results {
				r := x.evalE(e, st)
				st = r.st
				v := x.conv(st, r.v, x.typeOf(e), res.At(i).Type())
				rets = append(rets, v)
			}
		}
		// named results are visible to deferred functions
		for i := 0; i < res.Len(); i++ {
			if res.At(i).Name() != "" && res.At(i).Name() != "_" {
				st.vars[res.At(i)] = rets[i]
			}
		}
		return nil, []*Outcome{{kind: oReturn, st: st, rets: rets}}
	case *ast.DeferStmt:
		if fl, ok := s.Call.Fun.(*ast.FuncLit); ok {
			if len(s.Call.Args) > 0 {
				panic(unsupported(s.Pos(), "defer of a literal with arguments"))
			}
			st.defers = append(st.defers, deferRec{call: s.Call, fn: &FuncV{fl}})
			return []*State{st}, nil
		}
		var args []Val
		if sel, ok := s.Call.Fun.(*ast.SelectorExpr); ok {
			if _, isSel := x.info().Selections[sel]; isSel {
				r := x.evalE(sel.X, st)
				st = r.st
				args = append(args, r.v)
			}
		}
		for _, a := range s.Call.Args {
			r := x.evalE(a, st)
			st = r.st
			args = append(args, r.v)
		}
		st.defers = append(st.defers, deferRec{call: s.Call, args: args})
		return []*State{st}, nil
	case *ast.LabeledStmt:
		return x.stmt(s.Stmt, st)
	}
	panic(unsupported(s.Pos(), "statement %T", s))
}

func (x *Exec) isPanicCall(c *ast.CallExpr) bool {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok && id.Name == "panic" {
		_, b := x.info().Uses[id].(*types.Builtin)
		return b
	}
	return false
}

func (x *Exec) oneOf(t types.Type) *Term {
	if sortOf(t) == "F" {
		return mkI2F(mkI(1))
	}
	return mkI(1)
}

// zeroVal: zero value of a declared variable
func (x *Exec) zeroVal(st *State, t types.Type, pos token.Pos) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		// a local struct is an object of its own
		o := newAlloc("loc")
		x.initObject(st, t, s, o)
		return o
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return x.newSlice(st, zeroTerm(t))
	case *types.Map:
		return zeroTerm(t)
	}
	return zeroTerm(t)
}

// initObject sets the fields (or ghost state) of a new object to zero values
func (x *Exec) initObject(st *State, t types.Type, s *types.Struct, o *Term) {
	key := typeKey(t)
	if inits, ok := externInit[key]; ok {
		for _, in := range inits {
			c := x.v.comp(in.comp, in.val.sort)
			st.heap[c] = mkStore(x.heapGet(st, c), o, in.val)
		}
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		k := x.v.fieldKey(t, f)
		z := zeroTerm(f.Type())
		x.setField(st, k, f, o, z)
		if x.v.cs.nilField[k] {
			c := x.v.nilComp(k)
			st.heap[c] = mkStore(x.heapGet(st, c), o, tTrue)
		}
	}
}

// nilComp is the component that tells whether a slice field is nil.
func (v *Verifier) nilComp(key string) string { return v.comp(key+".isnil", "Bool") }

// setNil records the nil-ness of the value of e stored in a field.
func (x *Exec) setNil(st *State, key string, o *Term, e ast.Expr, v Val) {
	if !x.v.cs.nilField[key] {
		return
	}
	var n *Term
	switch y := ast.Unparen(e).(type) {
	case *ast.CompositeLit:
		n = tFalse
	case *ast.Ident:
		if y.Name == "nil" {
			n = tTrue
		}
	case *ast.CallExpr:
		if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "make" {
			n = tFalse
		}
	}
	if n == nil {
		n = x.nilness(st, v, x.term(st, v))
	}
	c := x.v.nilComp(key)
	st.heap[c] = mkStore(x.heapGet(st, c), o, n)
}

func (x *Exec) setField(st *State, key string, f *types.Var, o, val *Term) {
	x.checkPositive(st, key, val, f.Pos())
	if x.v.final[key] {
		finVals[finKey{o, key}] = val
		finApps[finKey{o, "fin_" + sanitize(key)}] = val
		return
	}
	c := x.v.comp(key, val.sort)
	st.heap[c] = mkStore(x.heapGet(st, c), o, val)
}

// putKey: the key of a new object is the one it is first put under in a map, if that
// was known when the object was made.
func (x *Exec) putKey(st *State, t types.Type, o, k *Term, pos token.Pos) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := x.v.cs.keyed[typeKey(p.Elem())]
	if !ok {
		return
	}
	g := mkEq(x.v.keyOf(n, o), k)
	if s, ok := allocStamp[o]; ok && s > x.stampEntry && birthOf(k) < s {
		if x.keyedAt == nil {
			x.keyedAt = map[*Term]*Term{}
		}
		if k0, ok := x.keyedAt[o]; !ok || k0 == k {
			x.keyedAt[o] = k
			st.addFact(g, false)
			return
		}
	}
	x.safe(st, "key", g, pos)
}

// checkPositive: a field declared positive is given a positive value.
func (x *Exec) checkPositive(st *State, key string, v Val, pos token.Pos) {
	if t, ok := v.(*Term); ok && x.v.cs.positive[key] {
		x.safe(st, "positive "+key, mkLe(mkI(1), t), pos)
	}
}

type externField struct {
	comp string
	val  *Term
}

// ghost state of zero values of external types
var externInit = map[string][]externField{
	"strings.Builder": {{"g_buf", mkLit("")}},
	"bytes.Buffer":    {{"g_buf", mkLit("")}},
}

func (x *Exec) ifStmt(s *ast.IfStmt, st *State) ([]*State, []*Outcome) {
	if s.Init != nil {
		f, o := x.stmt(s.Init, st)
		if len(f) != 1 || len(o) != 0 {
			panic(unsupported(s.Pos(), "if initialiser"))
		}
		st = f[0]
	}
	r := x.evalE(s.Cond, st)
	st = r.st
	c := x.fold(st, x.term(st, r.v))
	var falls []*State
	var outs []*Outcome
	if c != tFalse {
		a := st
		if c != tTrue {
			a = st.clone()
			a.addFact(c, true)
		}
		f, o := x.block(s.Body.List, a)
		falls = append(falls, x.one(f)...)
		outs = append(outs, o...)
	}
	if c != tTrue {
		b := st
		if c != tFalse {
			b = st.clone()
			b.addFact(mkNot(c), true)
		}
		if s.Else != nil {
			f, o := x.stmt(s.Else, b)
			falls = append(falls, x.one(f)...)
			outs = append(outs, o...)
		} else {
			falls = append(falls, b)
		}
	}
	return x.one(falls), outs
}

// fold simplifies a condition using literal facts and ranges
func (x *Exec) fold(st *State, c *Term) *Term {
	switch c.op {
	case "true", "false":
		return c
	case "and", "or":
		var as []*Term
		for _, a := range c.args {
			as = append(as, x.fold(st, a))
		}
		if c.op == "and" {
			return mkAnd(as...)
		}
		return mkOr(as...)
	case "not":
		if f := x.fold(st, c.args[0]); f != c.args[0] {
			return mkNot(f)
		}
	case "le", "lt":
		lo, hi := st.bounds(mkSub(c.args[0], c.args[1]))
		if hi != nil && (hi.Sign() < 0 || hi.Sign() == 0 && c.op == "le") {
			return tTrue
		}
		if lo != nil && (lo.Sign() > 0 || lo.Sign() == 0 && c.op == "lt") {
			return tFalse
		}
	case "eq":
		if c.args[0].sort == "Int" {
			lo, hi := st.bounds(mkSub(c.args[0], c.args[1]))
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return tFalse
			}
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return tTrue
			}
		}
	}
	if k, ok := st.known(c); ok {
		return mkBool(k)
	}
	return c
}

func (x *Exec) switchStmt(s *ast.SwitchStmt, st *State) ([]*State, []*Outcome) {
	if s.Init != nil {
		f, _ := x.stmt(s.Init, st)
		st = f[0]
	}
	var tag Val
	var tagT types.Type
	if s.Tag != nil {
		r := x.evalE(s.Tag, st)
		st, tag = r.st, r.v
		tagT = x.typeOf(s.Tag)
	}
	var falls []*State
	var outs []*Outcome
	cur := st
	var def *ast.CaseClause
	finish := func(body []ast.Stmt, b *State) {
		for _, q := range body {
			if br, ok := q.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				panic(unsupported(q.Pos(), "fallthrough"))
			}
		}
		f, o := x.block(body, b)
		falls = append(falls, f...)
		for _, oc := range o {
			if oc.kind == oBreak {
				falls = append(falls, oc.st)
			} else {
				outs = append(outs, oc)
			}
		}
	}
	for _, cc := range s.Body.List {
		cl := cc.(*ast.CaseClause)
		if cl.List == nil {
			def = cl
			continue
		}
		if cur == nil {
			break
		}
		c := tFalse
		for _, e := range cl.List {
			r := x.evalE(e, cur)
			cur = r.st
			var t *Term
			if tag != nil {
				t = x.compare(cur, token.EQL, tag, tagT, r.v, x.typeOf(e), e.Pos())
			} else {
				t = x.term(cur, r.v)
			}
			c = mkOr(c, t)
		}
		c = x.fold(cur, c)
		if c == tFalse {
			continue
		}
		if c == tTrue {
			finish(cl.Body, cur)
			cur = nil
			break
		}
		b := cur.clone()
		b.addFact(c, true)
		finish(cl.Body, b)
		cur.addFact(mkNot(c), true)
	}
	if cur != nil {
		if def != nil {
			finish(def.Body, cur)
		} else {
			falls = append(falls, cur)
		}
	}
	return x.one(falls), outs
}

func (x *Exec) typeSwitch(s *ast.TypeSwitchStmt, st *State) ([]*State, []*Outcome) {
	if s.Init != nil {
		f, _ := x.stmt(s.Init, st)
		st = f[0]
	}
	var ex ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ex = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		ex = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	r := x.evalE(ex, st)
	st = r.st
	u := x.term(st, r.v)
	var falls []*State
	var outs []*Outcome
	cur := st
	var def *ast.CaseClause
	finish := func(cl *ast.CaseClause, b *State, v *Term) {
		if o := x.info().Implicits[cl]; o != nil {
			b.vars[o] = v
		}
		f, o := x.block(cl.Body, b)
		falls = append(falls, f...)
		for _, oc := range o {
			if oc.kind == oBreak {
				falls = append(falls, oc.st)
			} else {
				outs = append(outs, oc)
			}
		}
	}
	for _, cc := range s.Body.List {
		cl := cc.(*ast.CaseClause)
		if cl.List == nil {
			def = cl
			continue
		}
		c := tFalse
		v := u
		for _, e := range cl.List {
			if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
				c = mkOr(c, mkEq(u, tNil))
				continue
			}
			t := x.typeOf(e)
			if types.IsInterface(t) {
				panic(unsupported(e.Pos(), "type switch on an interface type"))
			}
			c = mkOr(c, mkEq(mkTyp(u), mkI(tagOf(t))))
			if len(cl.List) == 1 {
				v = mkUnbox(t, u)
			}
		}
		c = x.fold(cur, c)
		if c == tFalse {
			continue
		}
		b := cur.clone()
		b.addFact(c, true)
		finish(cl, b, v)
		cur.addFact(mkNot(c), true)
	}
	if def != nil {
		finish(def, cur, u)
	} else {
		falls = append(falls, cur)
	}
	return x.one(falls), outs
}

// assignment --------------------------------------------------------------------------

func (x *Exec) assign(s *ast.AssignStmt, st *State) *State {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		r := x.evalE(s.Lhs[0], st)
		r2 := x.evalE(s.Rhs[0], r.st)
		st = r2.st
		t := x.typeOf(s.Lhs[0])
		val := x.arithT(st, ops[s.Tok], x.term(st, r.v), x.term(st, r2.v), t, s.Pos())
		return x.store(s.Lhs[0], val, t, st, s.Pos())
	}
	var vals []Val
	var typs []types.Type
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		switch r := ast.Unparen(s.Rhs[0]).(type) {
		case *ast.CallExpr:
			nst, rv := x.call(r, st)
			if nst == nil {
				panic(unsupported(s.Pos(), "call does not return"))
			}
			st = nst
			vals = rv
			tup := x.typeOf(r).(*types.Tuple)
			for i := 0; i < tup.Len(); i++ {
				typs = append(typs, tup.At(i).Type())
			}
		case *ast.IndexExpr:
			m := x.evalE(r.X, st)
			k := x.evalE(r.Index, m.st)
			st = k.st
			mt := x.typeOf(r.X).Underlying().(*types.Map)
			mm := x.term(st, m.v)
			kk := x.term(st, x.conv(st, k.v, x.typeOf(r.Index), mt.Key()))
			has := mkMHas(mm, kk)
			got := x.v.markKeyed(mt.Elem(), mkMGet(mm, kk))
			x.assumeNonNil(st, mt.Elem(), got, has)
			if x.v.cs.onlyTrue[typeKey(mt)] {
				got = tTrue
			}
			vals = []Val{mkIte(has, got, zeroTerm(mt.Elem())), has}
			if isSeq(got.sort) {
				vals[0] = mkIte(has, got, zeroTerm(mt.Elem()))
			}
			typs = []types.Type{mt.Elem(), types.Typ[types.Bool]}
		case *ast.TypeAssertExpr:
			u := x.evalE(r.X, st)
			st = u.st
			t := x.typeOf(r.Type)
			if types.IsInterface(t) {
				panic(unsupported(s.Pos(), "assertion to an interface type"))
			}
			uu := x.term(st, u.v)
			ok := mkEq(mkTyp(uu), mkI(tagOf(t)))
			vals = []Val{mkIte(ok, mkUnbox(t, uu), zeroTerm(t)), ok}
			typs = []types.Type{t, types.Typ[types.Bool]}
		default:
			panic(unsupported(s.Pos(), "multi-value assignment"))
		}
	} else {
		for _, e := range s.Rhs {
			r := x.evalE(e, st)
			st = r.st
			vals = append(vals, r.v)
			typs = append(typs, x.typeOf(e))
		}
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			o := x.info().Defs[id]
			if o == nil {
				o = x.info().Uses[id]
			}
			if g, isG := x.v.p.globals[asVar(o)]; isG {
				_ = g
				st = x.store(l, vals[i], typs[i], st, s.Pos())
				continue
			}
			st.vars[o] = x.localCopy(st, x.conv(st, vals[i], typs[i], o.Type()), o.Type(), s.Pos())
			continue
		}
		if len(s.Rhs) == len(s.Lhs) {
			x.rhs = s.Rhs[i]
		}
		st = x.store(l, vals[i], typs[i], st, s.Pos())
		x.rhs = nil
	}
	return st
}

func asVar(o types.Object) *types.Var {
	v, _ := o.(*types.Var)
	return v
}

func (x *Exec) localCopy(st *State, v Val, t types.Type, pos token.Pos) Val {
	if _, ok := t.Underlying().(*types.Struct); ok {
		panic(unsupported(pos, "copy of a struct value"))
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return x.newSlice(st, x.term(st, v))
	}
	return v
}

// store assigns to an lvalue expression.
func (x *Exec) store(l ast.Expr, val Val, vt types.Type, st *State, pos token.Pos) *State {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return st
		}
		o := x.info().Uses[l]
		if o == nil {
			o = x.info().Defs[l]
		}
		if _, isG := x.v.p.globals[asVar(o)]; isG {
			c := x.v.comp("global."+o.Name(), sortOf(o.Type()))
			st.heap[c] = mkStore(x.heapGet(st, c), mkVar("globals", "U"), x.capture(st, x.conv(st, val, vt, o.Type())))
			return st
		}
		st.vars[o] = x.localCopy(st, x.conv(st, val, vt, o.Type()), o.Type(), pos)
		return st
	case *ast.SelectorExpr:
		s, ok := x.info().Selections[l]
		if !ok {
			o := x.info().Uses[l.Sel]
			if _, isG := x.v.p.globals[asVar(o)]; !isG {
				panic(unsupported(pos, "assignment to a package variable"))
			}
			c := x.v.comp(x.v.globalComp(o), sortOf(o.Type()))
			st.heap[c] = mkStore(x.heapGet(st, c), mkVar("globals", "U"), x.capture(st, x.conv(st, val, vt, o.Type())))
			return st
		}
		r := x.evalE(l.X, st)
		st = r.st
		obj := x.term(st, r.v)
		rt := x.typeOf(l.X)
		idx := s.Index()
		for k, i := range idx {
			base := rt
			if p, ok := base.Underlying().(*types.Pointer); ok {
				base = p.Elem()
				x.derefCheck(st, obj, rt, pos)
			}
			f := base.Underlying().(*types.Struct).Field(i)
			if k == len(idx)-1 {
				key := x.v.fieldKey(base, f)
				if x.v.immut[typeKey(base)] || x.v.final[key] {
					panic(unsupported(pos, "assignment to field %s treated as final", key))
				}
				v := x.conv(st, val, vt, f.Type())
				x.checkNonNil(st, f.Type(), v, pos, "field "+key)
				x.checkPositive(st, key, v, pos)
				c := x.v.comp(key, sortOf(f.Type()))
				sv, alone := v.(*SliceV)
				if alone {
					q := st.cells[sv.cell]
					alone = q != nil && q.frozen == "" && q.shared == "" && !q.used && q.owner == "" && q.parent == 0 && sv.off == mkI(0) && sv.ln == mkLen(q.content)
				}
				st.heap[c] = mkStore(x.heapGet(st, c), obj, x.capture(st, v))
				if alone {
					st.updCell(sv.cell, func(c *Cell) { c.capKey, c.capObj, c.loads = key, obj, 0 })
				}
				if x.v.cs.nilField[key] {
					var rhs ast.Expr = l
					if x.rhs != nil {
						rhs = x.rhs
					}
					x.setNil(st, key, obj, rhs, val)
				}
				return st
			}
			obj = x.v.readField(rt, i, obj, x.heapFn(st))
			rt = f.Type()
		}
	case *ast.IndexExpr:
		bt := x.typeOf(l.X)
		if m, ok := bt.Underlying().(*types.Map); ok {
			k := x.evalE(l.Index, st)
			st = k.st
			kt := x.term(st, x.conv(st, k.v, x.typeOf(l.Index), m.Key()))
			v := x.conv(st, val, vt, m.Elem())
			x.checkNonNil(st, m.Elem(), v, pos, "map")
			vv := x.capture(st, v)
			if x.v.cs.onlyTrue[typeKey(bt)] {
				x.safe(st, "only true is stored in a "+typeKey(bt), vv, pos)
			}
			x.putKey(st, m.Elem(), vv, kt, pos)
			return x.updateMap(l.X, st, pos, func(t *Term) *Term { return mkMPut(t, kt, vv) })
		}
		r := x.evalE(l.X, st)
		k := x.evalE(l.Index, r.st)
		st = k.st
		i := x.term(st, k.v)
		var et types.Type
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		case *types.Pointer:
			panic(unsupported(pos, "pointer to array"))
		}
		v := x.conv(st, val, vt, et)
		x.checkNonNil(st, et, v, pos, "slice")
		vv := x.capture(st, v)
		sv, ok := r.v.(*SliceV)
		if !ok {
			t := x.term(st, r.v)
			x.safe(st, "index out of range", mkAnd(mkLe(mkI(0), i), mkLt(i, mkLen(t))), pos)
			x.oblige(st, "frame", "write to a slice the contract does not list as mutated", tFalse, pos, nil)
			return st
		}
		x.safe(st, "index out of range", mkAnd(mkLe(mkI(0), i), mkLt(i, sv.ln)), pos)
		x.writeCell(st, sv.cell, pos, func(c *Term) *Term { return mkUpd(c, mkAdd(sv.off, i), vv) })
		return st
	case *ast.StarExpr:
		r := x.evalE(l.X, st)
		st = r.st
		obj := x.term(st, r.v)
		x.derefCheck(st, obj, x.typeOf(l.X), pos)
		c := x.v.comp("deref."+sanitize(typeKey(vt)), sortOf(vt))
		st.heap[c] = mkStore(x.heapGet(st, c), obj, x.capture(st, val))
		return st
	}
	panic(unsupported(pos, "assignment to %T", l))
}

func (x *Exec) writeCell(st *State, id int, pos token.Pos, f func(*Term) *Term) {
	c := st.cells[id]
	if c.frozen != "" || c.shared != "" || c.used {
		panic(unsupported(pos, "write to a slice or map that may be aliased (%s%s)", c.frozen, c.shared))
	}
	nc := f(c.content)
	st.updCell(id, func(c *Cell) { c.content = nc })
	for p := c.parent; p != 0; {
		// slices this one was appended from may share its storage
		q := st.cells[p]
		if q == nil {
			break
		}
		if q.frozen != "" {
			panic(unsupported(pos, "write to a slice grown from a captured one"))
		}
		t := newVar("stale", q.content.sort)
		st.addFact(mkEq(mkLen(t), mkLen(q.content)), false)
		st.updCell(p, func(c *Cell) { c.content = t })
		p = q.parent
	}
	if c.owner != "" {
		st.heap[c.owner] = mkStore(x.heapGet(st, c.owner), c.ownerOb, newVar("aliased", nc.sort))
	}
}

// updateMap assigns into the map denoted by an expression.
func (x *Exec) updateMap(e ast.Expr, st *State, pos token.Pos, f func(*Term) *Term) *State {
	switch l := ast.Unparen(e).(type) {
	case *ast.Ident:
		o := x.info().Uses[l]
		switch m := plain(st.vars[o]).(type) {
		case *MapV:
			x.writeCell(st, m.cell, pos, f)
			return st
		case *Term:
			x.oblige(st, "frame", "write to a map the contract does not list as mutated", tFalse, pos, nil)
			return st
		}
	case *ast.SelectorExpr:
		s, ok := x.info().Selections[l]
		if ok && s.Kind() == types.FieldVal {
			r := x.evalE(l.X, st)
			st = r.st
			obj := x.term(st, r.v)
			rt := x.typeOf(l.X)
			for k, i := range s.Index() {
				base := rt
				if p, ok := base.Underlying().(*types.Pointer); ok {
					base = p.Elem()
					x.derefCheck(st, obj, rt, pos)
				}
				fl := base.Underlying().(*types.Struct).Field(i)
				if k == len(s.Index())-1 {
					key := x.v.fieldKey(base, fl)
					if x.v.final[key] || x.v.immut[typeKey(base)] {
						panic(unsupported(pos, "write to final map field %s", key))
					}
					c := x.v.comp(key, sortOf(fl.Type()))
					old := mkSelect(x.heapGet(st, c), obj)
					st.heap[c] = mkStore(x.heapGet(st, c), obj, f(old))
					return st
				}
				obj = x.v.readField(rt, i, obj, x.heapFn(st))
				rt = fl.Type()
			}
		}
	case *ast.CallExpr:
		if tv, ok := x.info().Types[l.Fun]; ok && tv.IsType() {
			return x.updateMap(l.Args[0], st, pos, f)
		}
	}
	panic(unsupported(pos, "assignment into a map expression"))
}

func (x *Exec) derefCheck(st *State, obj *Term, t types.Type, pos token.Pos) {
	g := mkNot(mkEq(obj, tNil))
	if g == tTrue {
		return
	}
	if k, ok := st.known(g); ok && k {
		return
	}
	x.safe(st, "nil dereference", g, pos)
}

var _ = strings.HasPrefix
