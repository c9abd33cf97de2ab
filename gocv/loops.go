package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
)

// loop is the common form of for and range statements.
type loop struct {
	num     int
	pos     token.Pos
	bodyPos token.Pos
	con     *LoopContract
	// test evaluates the condition: the states in which the body runs / the loop ends
	test   func(st *State) (in, out *State)
	body   func(st *State) ([]*State, []*Outcome)
	post   func(st *State) []*State
	idx    func(st *State) *Term
	seenID int
	// terminates on its own (range loops)
	finite bool
	// cands gives candidate invariants at the loop head
	condCand func(st *State) []*Term
	measure  func(st *State) []*Term
	// assigned variables (syntactic)
	assigned map[types.Object]bool
	entry    *State
}

type compMod struct {
	whole bool
	idx   map[*Term]bool
}

type modset struct {
	vars   map[types.Object]bool
	asTerm map[types.Object]bool
	cells  map[int]bool
	flags  map[int]Cell
	comps  map[string]*compMod
}

func (x *Exec) loopNumber(n ast.Node) int {
	k := fmt.Sprintf("%s@%d", x.frame.path, n.Pos())
	if i, ok := x.loopIDs[k]; ok {
		return i
	}
	i := len(x.loopIDs) + 1
	x.loopIDs[k] = i
	return i
}

func (x *Exec) assignedIn(n ast.Node, st *State) map[types.Object]bool {
	r := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		for {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
				continue
			case *ast.Ident:
				if o := x.info().Uses[y]; o != nil {
					if _, ok := st.vars[o]; ok {
						r[o] = true
					}
				}
			}
			return
		}
	}
	if n == nil {
		return r
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.RangeStmt:
			if n.Key != nil {
				mark(n.Key)
			}
			if n.Value != nil {
				mark(n.Value)
			}
		}
		return true
	})
	return r
}

func (x *Exec) forStmt(s *ast.ForStmt, st *State) ([]*State, []*Outcome) {
	if s.Init != nil {
		f, o := x.stmt(s.Init, st)
		if len(f) != 1 || len(o) != 0 {
			panic(unsupported(s.Pos(), "loop initialiser"))
		}
		st = f[0]
	}
	L := &loop{pos: s.Pos(), bodyPos: s.Body.Pos() + 1}
	L.num = x.loopNumber(s)
	L.test = func(st *State) (*State, *State) {
		if s.Cond == nil {
			return st, nil
		}
		r := x.evalE(s.Cond, st)
		st = r.st
		c := x.fold(st, x.term(st, r.v))
		if c == tTrue {
			return st, nil
		}
		if c == tFalse {
			return nil, st
		}
		a := st.clone()
		a.addFact(c, true)
		b := st.clone()
		b.addFact(mkNot(c), true)
		return a, b
	}
	L.body = func(st *State) ([]*State, []*Outcome) { return x.block(s.Body.List, st) }
	L.post = func(st *State) []*State {
		if s.Post == nil {
			return []*State{st}
		}
		f, _ := x.stmt(s.Post, st)
		return f
	}
	var conds func(st *State) (les [][2]*Term)
	conds = func(st *State) (les [][2]*Term) {
		if s.Cond == nil {
			return nil
		}
		var walk func(e ast.Expr)
		walk = func(e ast.Expr) {
			e = ast.Unparen(e)
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return
			}
			if b.Op == token.LAND {
				walk(b.X)
				walk(b.Y)
				return
			}
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
			default:
				return
			}
			if intKind(x.typeOf(b.X)) == "" || hasCall(x, b) {
				return
			}
			c := st.clone()
			l := x.evalE(b.X, c)
			r := x.evalE(b.Y, l.st)
			p, q := x.term(r.st, l.v), x.term(r.st, r.v)
			switch b.Op {
			case token.LSS:
				les = append(les, [2]*Term{p, q})
			case token.LEQ:
				les = append(les, [2]*Term{p, mkAdd(q, mkI(1))})
			case token.GTR:
				les = append(les, [2]*Term{q, p})
			case token.GEQ:
				les = append(les, [2]*Term{q, mkAdd(p, mkI(1))})
			case token.NEQ:
				les = append(les, [2]*Term{p, q}, [2]*Term{q, p})
			}
		}
		walk(s.Cond)
		return
	}
	L.condCand = func(st *State) []*Term {
		var r []*Term
		for _, p := range conds(st) {
			r = append(r, mkLe(p[0], p[1]))
		}
		return r
	}
	L.measure = func(st *State) []*Term {
		var r []*Term
		for _, p := range conds(st) {
			r = append(r, mkSub(p[1], p[0]))
		}
		return r
	}
	// the counter of an indexed loop
	if inc, ok := s.Post.(*ast.IncDecStmt); ok && inc.Tok == token.INC {
		if id, ok := inc.X.(*ast.Ident); ok {
			if o := x.info().Uses[id]; o != nil {
				L.idx = func(st *State) *Term {
					if v, ok := st.vars[o]; ok {
						return x.term(st, v)
					}
					return nil
				}
			}
		}
	}
	L.assigned = x.assignedIn(s.Body, st)
	for o := range x.assignedIn(s.Post, st) {
		L.assigned[o] = true
	}
	for o := range x.assignedIn(s.Cond, st) {
		L.assigned[o] = true
	}
	return x.runLoop(L, st)
}

func hasCall(x *Exec, e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if tv, ok := x.info().Types[c.Fun]; ok && tv.IsType() {
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "len" {
				return true
			}
			r = true
		}
		return true
	})
	return r
}

func (x *Exec) rangeStmt(s *ast.RangeStmt, st *State) ([]*State, []*Outcome) {
	t := x.typeOf(s.X)
	L := &loop{pos: s.Pos(), bodyPos: s.Body.Pos() + 1, finite: true}
	L.num = x.loopNumber(s)
	r := x.evalE(s.X, st)
	st = r.st
	bind := func(st *State, e ast.Expr, v Val, vt types.Type) *State {
		if e == nil {
			return st
		}
		id, ok := e.(*ast.Ident)
		if ok && id.Name == "_" {
			return st
		}
		if s.Tok == token.DEFINE {
			o := x.info().Defs[id]
			st.vars[o] = v
			return st
		}
		return x.store(e, v, vt, st, s.Pos())
	}
	hid := x.hidden(s)
	L.assigned = x.assignedIn(s.Body, st)
	if s.Tok == token.ASSIGN {
		for _, e := range []ast.Expr{s.Key, s.Value} {
			if id, ok := e.(*ast.Ident); ok {
				if o := x.info().Uses[id]; o != nil {
					L.assigned[o] = true
				}
			}
		}
	}
	L.body = func(st *State) ([]*State, []*Outcome) { return x.block(s.Body.List, st) }
	var unchanged func(st *State)
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := x.term(st, r.v)
		ks := sortOf(u.Key())
		if x.con != nil && x.con.loops[L.num] != nil && x.con.loops[L.num].keys != "" {
			// each key once, in an order that is a function of the map
			fn, ok := x.v.p.pkg.Scope().Lookup(x.con.loops[L.num].keys).(*types.Func)
			if !ok {
				panic(unsupported(s.Pos(), "no function %s", x.con.loops[L.num].keys))
			}
			order := x.v.applySpec(fn, []*Term{m}, func(string) *Term { panic(bug("the order of keys depends on the heap")) })
			n := mkLen(order)
			st.vars[hid] = mkI(0)
			L.test = x.countTest(hid, n, func(a *State, i *Term) *State {
				k := mkAt(order, i)
				a.addFact(mkMHas(m, k), true)
				got := x.v.markKeyed(u.Elem(), mkMGet(m, k))
				x.assumeNonNil(a, u.Elem(), got, tTrue)
				a = bind(a, s.Key, k, u.Key())
				return bind(a, s.Value, got, u.Elem())
			})
			L.condCand = func(st *State) []*Term { return []*Term{mkLe(x.term(st, st.vars[hid]), n)} }
			unchanged = func(st *State) {
				if !hasCall(x, s.X) {
					q := x.evalE(s.X, st.clone())
					if x.term(q.st, q.v) != m {
						panic(unsupported(s.Pos(), "map modified while it is ranged over"))
					}
				}
			}
			break
		}
		as := arrSort(ks, "Bool")
		id := int(s.Pos())
		L.seenID = id
		st.seen[id] = mkConstArr(as, tFalse)
		L.test = func(st *State) (*State, *State) {
			seen := st.seen[id]
			a := st.clone()
			k := x.freshOf("rk", u.Key())
			cond := mkAnd(mkMHas(m, k), mkNot(mkSelect(seen, k)))
			a.addFact(cond, true)
			got := x.v.markKeyed(u.Elem(), mkMGet(m, k))
			x.assumeNonNil(a, u.Elem(), got, tTrue)
			a.seen[id] = mkStore(seen, k, tTrue)
			a = bind(a, s.Key, k, u.Key())
			a = bind(a, s.Value, got, u.Elem())
			b := st.clone()
			bv := boundVar(ks)
			var pats [][]*Term
			pats = append(pats, []*Term{mkApp("mhas", "Bool", m, bv)}, []*Term{mkSelect(seen, bv)})
			b.addFact(mkForall([]*Term{bv}, mkImp(mkApp("mhas", "Bool", m, bv), mkSelect(seen, bv)), pats...), true)
			return a, b
		}
		L.post = func(st *State) []*State {
			if !hasCall(x, s.X) {
				q := x.evalE(s.X, st.clone())
				if x.term(q.st, q.v) != m {
					panic(unsupported(s.Pos(), "map modified while it is ranged over"))
				}
			}
			return []*State{st}
		}
		return x.runLoop(L, st)
	case *types.Slice, *types.Array, *types.Pointer:
		if _, ok := u.(*types.Pointer); ok {
			panic(unsupported(s.Pos(), "range over a pointer"))
		}
		var n *Term
		sv, isSV := r.v.(*SliceV)
		var tm *Term
		if isSV {
			n = sv.ln
		} else {
			tm = x.term(st, r.v)
			n = mkLen(tm)
		}
		var et types.Type
		if q, ok := u.(*types.Slice); ok {
			et = q.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		st.vars[hid] = mkI(0)
		L.test = x.countTest(hid, n, func(a *State, i *Term) *State {
			a = bind(a, s.Key, i, types.Typ[types.Int])
			if s.Value != nil {
				var el *Term
				if isSV {
					el = mkAt(a.cells[sv.cell].content, mkAdd(sv.off, i))
				} else {
					el = mkAt(tm, i)
				}
				x.elemFacts(a, t, el)
				a = bind(a, s.Value, el, et)
			}
			return a
		})
		L.condCand = func(st *State) []*Term { return []*Term{mkLe(x.term(st, st.vars[hid]), n)} }
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			panic(unsupported(s.Pos(), "range over a string"))
		}
		n := x.term(st, r.v)
		st.vars[hid] = mkI(0)
		L.test = x.countTest(hid, n, func(a *State, i *Term) *State { return bind(a, s.Key, i, t) })
		L.condCand = func(st *State) []*Term {
			return []*Term{mkOr(mkLe(x.term(st, st.vars[hid]), n), mkEq(x.term(st, st.vars[hid]), mkI(0)))}
		}
	default:
		panic(unsupported(s.Pos(), "range over %s", t))
	}
	L.assigned[hid] = true
	L.idx = func(st *State) *Term { return x.term(st, st.vars[hid]) }
	L.post = func(st *State) []*State {
		if unchanged != nil {
			unchanged(st)
		}
		st.vars[hid] = mkAdd(x.term(st, st.vars[hid]), mkI(1))
		return []*State{st}
	}
	return x.runLoop(L, st)
}

func (x *Exec) countTest(hid types.Object, n *Term, bind func(*State, *Term) *State) func(st *State) (*State, *State) {
	return func(st *State) (*State, *State) {
		i := x.term(st, st.vars[hid])
		c := x.fold(st, mkLt(i, n))
		var a, b *State
		if c != tFalse {
			a = st
			if c != tTrue {
				a = st.clone()
				a.addFact(c, true)
			}
		}
		if c != tTrue {
			b = st
			if c != tFalse {
				b = st.clone()
				b.addFact(mkNot(c), true)
			}
		}
		if a != nil {
			a = bind(a, i)
		}
		return a, b
	}
}

var hiddenVars = map[ast.Node]*types.Var{}

func (x *Exec) hidden(n ast.Node) *types.Var {
	if v, ok := hiddenVars[n]; ok {
		return v
	}
	v := types.NewVar(n.Pos(), x.v.p.pkg, "", types.Typ[types.Int])
	hiddenVars[n] = v
	return v
}

// iterate runs one iteration: the states at the next loop head, other outcomes and exits.
func (x *Exec) iterate(L *loop, in *State) (back []*State, exits []*State, outs []*Outcome) {
	falls, os := L.body(in)
	var nx []*State
	nx = append(nx, falls...)
	for _, o := range os {
		switch o.kind {
		case oBreak:
			exits = append(exits, o.st)
		case oContinue:
			nx = append(nx, o.st)
		default:
			outs = append(outs, o)
		}
	}
	if len(nx) > 6 {
		m, _ := x.merge(nx, nil)
		nx = []*State{m}
	}
	for _, s := range nx {
		back = append(back, L.post(s)...)
	}
	return
}

func (x *Exec) runLoop(L *loop, st *State) ([]*State, []*Outcome) {
	if x.con != nil {
		L.con = x.con.loops[L.num]
	}
	x.usedLoops[L.num] = true
	x.curLoop = append(x.curLoop, &loopCtx{seenID: L.seenID})
	defer func() { x.curLoop = x.curLoop[:len(x.curLoop)-1] }()
	if L.con != nil && L.con.unroll > 0 {
		return x.unroll(L, st, L.con.unroll, true)
	}
	if L.con == nil || len(L.con.invs) == 0 && len(L.con.decr) == 0 {
		// small constant trip counts are unrolled
		if L.seenID == 0 {
			if f, o, ok := x.tryUnroll(L, st); ok {
				return f, o
			}
		}
	}
	return x.invLoop(L, st)
}

const autoUnroll = 8

func (x *Exec) tryUnroll(L *loop, st *State) (f []*State, o []*Outcome, ok bool) {
	// a dry run decides whether the condition is constant in every iteration
	x.suppress++
	sp := x.savePanics()
	nl := x.saveLoops()
	steps := x.steps
	constant := func() bool {
		cur := []*State{st.clone()}
		for k := 0; k <= autoUnroll; k++ {
			var next []*State
			for _, c := range cur {
				in, out := L.test(c)
				if in != nil && out != nil {
					return false
				}
				if in != nil {
					if k == autoUnroll {
						return false
					}
					b, _, _ := x.iterate(L, in)
					next = append(next, b...)
				}
			}
			if len(next) == 0 {
				return true
			}
			if len(next) > 2 {
				m, _ := x.merge(next, nil)
				next = []*State{m}
			}
			cur = next
		}
		return false
	}()
	x.suppress--
	x.restorePanics(sp)
	x.restoreLoops(nl)
	x.steps = steps + (x.steps-steps)/4
	if !constant {
		return nil, nil, false
	}
	f, o = x.unroll(L, st, autoUnroll, false)
	return f, o, true
}

func (x *Exec) saveLoops() map[string]int {
	r := map[string]int{}
	for k, v := range x.loopIDs {
		r[k] = v
	}
	return r
}

func (x *Exec) restoreLoops(m map[string]int) { x.loopIDs = m }

func (x *Exec) savePanics() int {
	if f := x.recFrame(); f != nil {
		return len(f.panics)
	}
	return 0
}

func (x *Exec) restorePanics(n int) {
	if f := x.recFrame(); f != nil {
		f.panics = f.panics[:n]
	}
}

func (x *Exec) unroll(L *loop, st *State, max int, require bool) ([]*State, []*Outcome) {
	var exits []*State
	var outs []*Outcome
	cur := []*State{st}
	for k := 0; ; k++ {
		var next []*State
		for _, c := range cur {
			in, out := L.test(c)
			if out != nil {
				exits = append(exits, out)
			}
			if in == nil {
				continue
			}
			if k == max {
				x.oblige(in, "inv", fmt.Sprintf("loop%d-unwind", L.num), tFalse, L.pos, nil)
				continue
			}
			b, e, o := x.iterate(L, in)
			next = append(next, b...)
			exits = append(exits, e...)
			outs = append(outs, o...)
		}
		if len(next) == 0 {
			break
		}
		if len(next) > 1 {
			m, _ := x.merge(next, nil)
			next = []*State{m}
		}
		cur = next
	}
	if len(exits) > maxFalls {
		m, _ := x.merge(exits, nil)
		exits = []*State{m}
	}
	return exits, outs
}

type candidate struct {
	f func(st *State) *Term
}

func (x *Exec) invLoop(L *loop, st *State) ([]*State, []*Outcome) {
	stampNow++
	stamp0 := stampNow
	ms := &modset{map[types.Object]bool{}, map[types.Object]bool{}, map[int]bool{}, map[int]Cell{}, map[string]*compMod{}}
	for o := range L.assigned {
		if _, ok := st.vars[o]; ok {
			ms.vars[o] = true
		}
	}
	entry := st.clone()
	L.entry = st.clone()
	var cands []candidate
	mkCands := func() {
		cands = nil
		var objs []types.Object
		for o := range ms.vars {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
		for _, o := range objs {
			o := o
			v0, ok := entry.vars[o]
			if !ok {
				continue
			}
			switch w := v0.(type) {
			case *Term:
				if w.sort == "Int" {
					cands = append(cands, candidate{func(s *State) *Term { return mkLe(w, x.term(s, s.vars[o])) }},
						candidate{func(s *State) *Term { return mkLe(x.term(s, s.vars[o]), w) }})
					if w != mkI(0) {
						cands = append(cands, candidate{func(s *State) *Term { return mkLe(mkI(0), x.term(s, s.vars[o])) }})
					}
				}
			case *SliceV:
				l0 := w.ln
				cands = append(cands, candidate{func(s *State) *Term {
					if sv, ok := s.vars[o].(*SliceV); ok {
						return mkLe(l0, sv.ln)
					}
					return mkLe(l0, mkLen(x.term(s, s.vars[o])))
				}})
			}
		}
		if L.condCand != nil {
			n := len(L.condCand(entry.clone()))
			for i := 0; i < n; i++ {
				i := i
				cands = append(cands, candidate{func(s *State) *Term {
					r := L.condCand(s)
					if i < len(r) {
						return r[i]
					}
					return tTrue
				}})
			}
		}
	}
	mkCands()
	dropped := 0
	assumeAt := func(h *State) {
		for _, c := range cands {
			h.addFact(c.f(h), false)
		}
		for _, t := range x.invTerms(L, h) {
			h.addFact(t.t, false)
		}
		if x.suppress == 0 && L.con != nil {
			var idx func() *Term
			if L.idx != nil {
				idx = func() *Term { return L.idx(h) }
			}
			for _, c := range L.con.uses {
				x.useHints = append(x.useHints, x.evalClause(c, x.localBinds(h, L.bodyPos, idx), x.specEnv(h)))
			}
		}
	}
	keepAt := func(s *State) bool {
		var k []candidate
		for _, c := range cands {
			if x.fold(s, c.f(s)) == tTrue {
				k = append(k, c)
			}
		}
		ch := len(k) != len(cands)
		dropped += len(cands) - len(k)
		cands = k
		return ch
	}
	// candidates must hold on entry
	x.suppress++
	keepAt(entry)
	rounds := 0
	for {
		rounds++
		if rounds > 14 {
			panic(unsupported(L.pos, "no fixpoint for the variables a loop modifies"))
		}
		sp := x.savePanics()
		nl := x.saveLoops()
		steps := x.steps
		h := x.havoc(entry.clone(), ms, L)
		base := h.clone()
		assumeAt(h)
		in, _ := L.test(h)
		changed := false
		if os.Getenv("GOCVDBG") != "" {
			for o := range ms.vars {
				fmt.Fprintf(os.Stderr, "round %d var %s asTerm %v\n", rounds, o.Name(), ms.asTerm[o])
			}
			fmt.Fprintf(os.Stderr, "round %d cells %v flags %v cands %d\n", rounds, ms.cells, ms.flags, len(cands))
			for c, m := range ms.comps {
				fmt.Fprintf(os.Stderr, "   comp %s whole %v idx %d\n", c, m.whole, len(m.idx))
			}
		}
		if in != nil {
			back, _, _ := x.iterate(L, in)
			for _, b := range back {
				if x.diff(ms, entry, base, b, stamp0) {
					changed = true
				}
			}
			if !changed {
				for _, b := range back {
					if keepAt(b) {
						changed = true
					}
				}
			}
		}
		x.restorePanics(sp)
		x.restoreLoops(nl)
		x.steps = steps + (x.steps-steps)/4
		if !changed {
			break
		}
	}
	x.suppress--
	// entry
	pre := st.clone()
	for _, t := range x.invTerms(L, st) {
		x.oblige(st, "inv", fmt.Sprintf("loop%d-entry%s", L.num, t.label), t.t, L.pos, t.props)
	}
	h := x.havoc(pre, ms, L)
	assumeAt(h)
	var decr []*Term
	in, out := L.test(h)
	if in != nil && x.hasTerm && !L.finite && !(L.con != nil && L.con.nodecr) {
		decr = x.loopMeasure(L, h)
	}
	var exits []*State
	var outs []*Outcome
	if out != nil {
		exits = append(exits, out)
	}
	if in != nil {
		auto := x.hasTerm && !L.finite && (L.con == nil || len(L.con.decr) == 0) && !(L.con != nil && L.con.nodecr)
		back, e, o := x.iterate(L, in)
		exits = append(exits, e...)
		outs = append(outs, o...)
		var autoM []*Term
		if auto && L.measure != nil {
			autoM = L.measure(h)
		}
		pick := -1
		if auto {
			for i := range autoM {
				good := true
				for _, b := range back {
					m1 := L.measure(b)
					_, hi := b.bounds(mkSub(m1[i], autoM[i]))
					if hi == nil || hi.Cmp(big.NewInt(-1)) > 0 {
						good = false
					}
				}
				if good {
					pick = i
					break
				}
			}
			if pick < 0 && len(autoM) > 0 {
				pick = 0
			}
		}
		for _, b := range back {
			for _, t := range x.invTerms(L, b) {
				x.oblige(b, "inv", fmt.Sprintf("loop%d-kept%s", L.num, t.label), t.t, L.pos, t.props)
			}
			if decr != nil {
				d1 := x.loopMeasure(L, b)
				x.oblige(b, "term", fmt.Sprintf("loop%d", L.num), lexLess(d1, decr), L.pos, nil)
			} else if auto {
				if pick >= 0 {
					m1 := L.measure(b)
					x.oblige(b, "term", fmt.Sprintf("loop%d", L.num), lexLess(m1[pick:pick+1], autoM[pick:pick+1]), L.pos, nil)
				} else {
					x.oblige(b, "term", fmt.Sprintf("loop%d-no-measure", L.num), tFalse, L.pos, nil)
				}
			}
		}
	}
	if len(exits) > maxFalls {
		m, _ := x.merge(exits, nil)
		exits = []*State{m}
	}
	return exits, outs
}

// lexLess: the tuple a is below b in the well-founded lexicographic order
func lexLess(a, b []*Term) *Term {
	var alts []*Term
	eq := tTrue
	for i := range a {
		if i >= len(b) {
			break
		}
		alts = append(alts, mkAnd(eq, mkLt(a[i], b[i]), mkLe(mkI(0), b[i])))
		eq = mkAnd(eq, mkEq(a[i], b[i]))
	}
	return mkOr(alts...)
}

type invTerm struct {
	t     *Term
	label string
	props []string
}

func (x *Exec) invTerms(L *loop, st *State) []invTerm {
	if L.con == nil {
		return nil
	}
	var idx func() *Term
	if L.idx != nil {
		idx = func() *Term { return L.idx(st) }
	}
	var r []invTerm
	for i, c := range L.con.invs {
		b := x.localBinds(st, L.bodyPos, idx)
		env := x.specEnv(st)
		if L.entry != nil {
			var idx0 func() *Term
			if L.idx != nil {
				idx0 = func() *Term { return L.idx(L.entry) }
			}
			for n, pv := range x.localBinds(L.entry, L.bodyPos, idx0) {
				if bd, ok := b[n]; ok {
					bd.pre = pv.val
					b[n] = bd
				}
			}
			env.pre = x.specEnv(L.entry)
		}
		l := c.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		r = append(r, invTerm{x.evalClause(c, b, env), "-" + l, c.props})
	}
	return r
}

func (x *Exec) loopMeasure(L *loop, st *State) []*Term {
	if L.con == nil || len(L.con.decr) == 0 {
		return nil
	}
	var idx func() *Term
	if L.idx != nil {
		idx = func() *Term { return L.idx(st) }
	}
	var r []*Term
	for _, c := range L.con.decr {
		r = append(r, x.evalClause(c, x.localBinds(st, L.bodyPos, idx), x.specEnv(st)))
	}
	return r
}

// havoc forgets what the loop may change.
func (x *Exec) havoc(st *State, ms *modset, L *loop) *State {
	stampNow++
	for id, c := range st.cells {
		if c.capKey != "" {
			st.updCell(id, func(c *Cell) { c.capKey = "" })
		}
	}
	var objs []types.Object
	for o := range ms.vars {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		n := o.Name()
		if n == "" {
			n = "idx"
		}
		old := st.vars[o]
		t := x.freshOf(n, o.Type())
		switch old.(type) {
		case *SliceV:
			if !ms.asTerm[o] {
				sl := x.newSlice(st, t)
				oc := old.(*SliceV).cell
				for o2, v2 := range st.vars {
					if w, ok := v2.(*SliceV); ok && o2 != o && w.cell == oc {
						st.updCell(sl.cell, func(c *Cell) { c.shared = "aliased before the loop" })
					}
				}
				st.vars[o] = sl
				continue
			}
		case *MapV:
			if !ms.asTerm[o] {
				st.vars[o] = &MapV{x.newCell(st, t)}
				continue
			}
		case *FuncV:
			panic(unsupported(L.pos, "function value assigned in a loop"))
		}
		st.vars[o] = t
		if o == types.Object(nil) {
			continue
		}
		if hv, ok := o.(*types.Var); ok && hv.Name() == "" {
			st.addFact(mkLe(mkI(0), t), false)
		}
		if t.sort == "U" && !x.v.nonnil[typeKey(o.Type())] {
			continue
		}
	}
	var ids []int
	for id := range ms.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		c := st.cells[id]
		if c == nil {
			continue
		}
		t := newVar("cell", c.content.sort)
		if isSeq(t.sort) {
			st.addFact(mkEq(mkLen(t), mkLen(c.content)), false)
		}
		st.updCell(id, func(c *Cell) { c.content = t })
	}
	for id, f := range ms.flags {
		if st.cells[id] == nil {
			continue
		}
		f := f
		st.updCell(id, func(c *Cell) {
			if f.frozen != "" {
				c.frozen = f.frozen
			}
			if f.shared != "" {
				c.shared = f.shared
			}
			c.used = c.used || f.used
		})
	}
	for _, c := range sortedKeys(ms.comps) {
		m := ms.comps[c]
		h := x.heapGet(st, c)
		if m.whole {
			st.heap[c] = newVar("heap!"+sanitize(c), h.sort)
			continue
		}
		var is []*Term
		for i := range m.idx {
			is = append(is, i)
		}
		sort.Slice(is, func(a, b int) bool { return is[a].id < is[b].id })
		for _, i := range is {
			v := newVar("hv!"+sanitize(c), arrSorts[h.sort].v)
			if r, ok := x.v.compRange[c]; ok {
				varRange[v] = r
			}
			h = mkStore(h, i, v)
		}
		st.heap[c] = h
	}
	if L.seenID != 0 {
		st.seen[L.seenID] = newVar("seen", st.seen[L.seenID].sort)
	}
	return st
}

// diff extends ms by what differs between the loop head h and a back edge b.
func (x *Exec) diff(ms *modset, entry, h, b *State, stamp0 int) bool {
	changed := false
	for o, v0 := range h.vars {
		v1, ok := b.vars[o]
		if !ok {
			continue
		}
		if sameVal(v0, v1) {
			continue
		}
		if !ms.vars[o] {
			ms.vars[o] = true
			changed = true
			continue
		}
		if ms.asTerm[o] {
			continue
		}
		cell := -1
		clean := true
		switch w := v1.(type) {
		case *SliceV:
			cell = w.cell
			c := b.cells[w.cell]
			if c.frozen != "" || c.shared != "" || c.used || c.owner != "" {
				clean = false
			}
			if z, ok := w.off, w.off.op == "int"; !ok || z.num.Sign() != 0 || w.ln != mkLen(c.content) {
				clean = false
			}
		case *MapV:
			cell = w.cell
			if b.cells[w.cell].frozen != "" || b.cells[w.cell].shared != "" {
				clean = false
			}
		case *Term:
			clean = false
		}
		if _, isT := v0.(*Term); isT {
			continue
		}
		if cell >= 0 {
			for o2, v2 := range b.vars {
				if o2 == o {
					continue
				}
				if _, live := h.vars[o2]; !live {
					continue
				}
				switch w := v2.(type) {
				case *SliceV:
					if w.cell == cell {
						clean = false
					}
				case *MapV:
					if w.cell == cell {
						clean = false
					}
				}
			}
		}
		if !clean {
			ms.asTerm[o] = true
			changed = true
		}
	}
	for id, c0 := range h.cells {
		c1 := b.cells[id]
		if c1 == nil {
			continue
		}
		if c1.content != c0.content && !ms.cells[id] {
			ms.cells[id] = true
			changed = true
		}
		f := ms.flags[id]
		g := f
		if c1.frozen != "" {
			g.frozen = c1.frozen
		}
		if c1.shared != "" {
			g.shared = c1.shared
		}
		g.used = g.used || c1.used
		if g.frozen != f.frozen || g.shared != f.shared || g.used != f.used {
			// only matters for cells that existed before the loop
			ms.flags[id] = g
			if entry.cells[id] != nil {
				changed = true
			}
		}
	}
	for c, t1 := range b.heap {
		t0 := x.heapGet(h, c)
		if t1 == t0 {
			continue
		}
		m := ms.comps[c]
		if m == nil {
			m = &compMod{idx: map[*Term]bool{}}
		}
		if m.whole {
			continue
		}
		ch := false
		// the stores already on top of the head's array
		depth := map[*Term]int{}
		var tops []*Term
		for t := t0; ; t = t.args[0] {
			depth[t] = len(tops)
			if t.op != "store" {
				break
			}
			tops = append(tops, t.args[1])
		}
		var peel func(t *Term)
		peel = func(t *Term) {
			for {
				if d, ok := depth[t]; ok {
					for _, i := range tops[:d] {
						if !m.idx[i] {
							m.idx[i] = true
							ch = true
						}
					}
					return
				}
				if t.op == "store" {
					i := t.args[1]
					if s, ok := stampOf(i); ok && s > stamp0 {
						// an object of this iteration
					} else if birthOf(i) <= stamp0 {
						if !m.idx[i] {
							m.idx[i] = true
							ch = true
						}
					} else {
						m.whole = true
						ch = true
						return
					}
					t = t.args[0]
					continue
				}
				if t.op == "ite" {
					peel(t.args[1])
					if !m.whole {
						peel(t.args[2])
					}
					return
				}
				m.whole = true
				ch = true
				return
			}
		}
		peel(t1)
		if ch {
			ms.comps[c] = m
			changed = true
		}
	}
	return changed
}
