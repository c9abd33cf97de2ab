package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"path"
	"sort"
	"strings"
)

func newVerifier(p *Prog, cs *Contracts) *Verifier {
	v := &Verifier{usedSpec: map[string]bool{}, p: p, cs: cs, specs: map[*types.Func]*SpecDef{}, specName: map[string]*SpecDef{}, compSort: map[string]string{}, final: map[string]bool{}, nonnil: cs.nonnil, specComps: map[*types.Func][]string{}, immut: cs.immutable, usedExt: map[string]bool{}, curUsed: map[string]bool{}, lemmaBusy: map[string]bool{}, locals: map[string][]localDecl{}, compRange: map[string][2]*big.Int{}, importName: map[string]*types.Package{}, sccOf: map[*types.Func]int{}, sccRec: map[int]bool{}, inlined: map[string]bool{}, assume: map[string]bool{}}
	for ip, q := range p.imports {
		v.importName[path.Base(ip)] = q
	}
	v.findFinal()
	v.callGraph()
	// declare the components of all fields and ghost functions up front
	for _, n := range p.pkg.Scope().Names() {
		switch o := p.pkg.Scope().Lookup(n).(type) {
		case *types.TypeName:
			if s, ok := o.Type().Underlying().(*types.Struct); ok && !v.immut[n] {
				for i := 0; i < s.NumFields(); i++ {
					k := v.fieldKey(o.Type(), s.Field(i))
					if !v.final[k] {
						v.comp(k, sortOf(s.Field(i).Type()))
						if kd := intKind(s.Field(i).Type()); kd != "" {
							v.compRange[k] = v.fieldRange(k, kd)
						}
					}
				}
			}
		case *types.Func:
			if cs.natural[n] {
				v.compRange[n] = [2]*big.Int{new(big.Int), wrapKinds["int64"][1]}
			}
			if cs.ghost[n] {
				v.comp(n, sortOf(o.Type().(*types.Signature).Results().At(0).Type()))
			}
		}
	}
	return v
}

func (v *Verifier) assumption(s string) { v.assume[s] = true }

// findFinal finds the fields that are only ever set by composite literals.
func (v *Verifier) findFinal() {
	assigned := map[*types.Var]bool{}
	for _, f := range v.p.files {
		if v.p.isSpec[f] {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			var mark func(e ast.Expr)
			mark = func(e ast.Expr) {
				switch y := ast.Unparen(e).(type) {
				case *ast.SelectorExpr:
					if s, ok := v.p.info.Selections[y]; ok {
						if fv, ok := s.Obj().(*types.Var); ok {
							assigned[fv] = true
						}
					}
				case *ast.IndexExpr:
					mark(y.X)
				case *ast.SliceExpr:
					mark(y.X)
				case *ast.CallExpr:
					if tv, ok := v.p.info.Types[y.Fun]; ok && tv.IsType() {
						mark(y.Args[0])
					}
				}
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.RangeStmt:
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete" || id.Name == "clear") {
					mark(n.Args[0])
				}
			}
			return true
		})
	}
	for _, n := range v.p.pkg.Scope().Names() {
		if o, ok := v.p.pkg.Scope().Lookup(n).(*types.TypeName); ok {
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if !assigned[s.Field(i)] {
						v.final[v.fieldKey(o.Type(), s.Field(i))] = true
					}
				}
			}
		}
	}
}

// callGraph finds the strongly connected components of the package's functions.
func (v *Verifier) callGraph() {
	callees := func(fn *types.Func) []*types.Func {
		d := v.p.decls[fn]
		if d == nil || d.Body == nil {
			return nil
		}
		var r []*types.Func
		ast.Inspect(d.Body, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			f := calleeOf(v.p.info, c)
			if f == nil {
				return true
			}
			f = f.Origin()
			if v.p.decls[f] != nil {
				r = append(r, f)
				return true
			}
			r = append(r, v.impls(f)...)
			return true
		})
		return r
	}
	idx := map[*types.Func]int{}
	low := map[*types.Func]int{}
	on := map[*types.Func]bool{}
	var stack []*types.Func
	n := 0
	scc := 0
	var visit func(f *types.Func)
	visit = func(f *types.Func) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range callees(f) {
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			scc++
			cnt := 0
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				v.sccOf[g] = scc
				cnt++
				if g == f {
					break
				}
			}
			if cnt > 1 || self {
				v.sccRec[scc] = true
			}
		}
	}
	for _, k := range sortedKeys(v.p.byKey) {
		f := v.p.byKey[k]
		if idx[f] == 0 {
			visit(f)
		}
	}
}

// impls: the package's methods an interface method may dispatch to
func (v *Verifier) impls(f *types.Func) []*types.Func {
	sig, ok := f.Type().(*types.Signature)
	if !ok || sig.Recv() == nil || !types.IsInterface(sig.Recv().Type()) {
		return nil
	}
	it := sig.Recv().Type().Underlying().(*types.Interface)
	var r []*types.Func
	for _, k := range sortedKeys(v.p.byKey) {
		m := v.p.byKey[k]
		s := m.Type().(*types.Signature)
		if m.Name() != f.Name() || s.Recv() == nil {
			continue
		}
		if types.Implements(s.Recv().Type(), it) {
			r = append(r, m)
		}
	}
	return r
}

func (v *Verifier) sameSCC(f, g *types.Func) bool {
	if f == nil {
		return false
	}
	if s, ok := v.sccOf[g]; ok {
		return v.sccOf[f] == s && v.sccRec[s]
	}
	for _, m := range v.impls(g) {
		if v.sccOf[f] == v.sccOf[m] && v.sccRec[v.sccOf[f]] {
			return true
		}
	}
	return false
}

// FuncResult is the outcome of generating a function's obligations.
type FuncResult struct {
	key   string
	obls  []*Obl
	undec string // why no obligations could be generated
	pos   string
}

// genFunc generates the proof obligations of one function under contract.
func (v *Verifier) genFunc(key string) (res *FuncResult) {
	con := v.cs.m[key]
	fn := v.p.byKey[key]
	res = &FuncResult{key: key}
	if fn == nil {
		res.undec = "the function no longer exists"
		return
	}
	d := v.p.decls[fn]
	res.pos = v.p.posStr(d.Pos())
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsup:
				p := ""
				if e.pos.IsValid() {
					p = v.p.posStr(e.pos) + ": "
				}
				res.undec = p + e.msg
			case missing:
				res.undec = e.Error()
			case bugErr:
				res.undec = e.msg
			default:
				panic(r)
			}
		}
	}()
	if len(con.cases) == 0 {
		x := v.newExec(key, con, fn)
		x.run(nil, nil)
		res.obls = x.obls
		return
	}
	// every combination of case values
	var combos [][]int64
	combos = append(combos, nil)
	for _, c := range con.cases {
		var next [][]int64
		for _, p := range combos {
			for _, val := range c.vals {
				next = append(next, append(append([]int64{}, p...), val))
			}
		}
		combos = next
	}
	for i, c := range combos {
		x := v.newExec(key, con, fn)
		x.coverCases = i == 0
		x.run(con.cases, c)
		res.obls = append(res.obls, x.obls...)
	}
	return
}

func (v *Verifier) newExec(key string, con *Contract, fn *types.Func) *Exec {
	return &Exec{v: v, fn: fn, con: con, key: key, loopIDs: map[string]int{}, usedLoops: map[int]bool{}}
}

func (x *Exec) run(cases []caseSplit, vals []int64) {
	v := x.v
	d := v.p.decls[x.fn]
	sig := x.fn.Type().(*types.Signature)
	stampNow++
	st := &State{vars: map[types.Object]Val{}, cells: map[int]*Cell{}, heap: map[string]*Term{}, rng: map[*Term][2]*big.Int{}, seen: map[int]*Term{}}
	if sig.Recv() != nil {
		x.params = append(x.params, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		x.params = append(x.params, sig.Params().At(i))
	}
	if len(x.con.params) != len(x.params) {
		panic(unsup{fmt.Sprintf("contract %s names %d parameters, the function has %d", x.key, len(x.con.params), len(x.params)), token.NoPos})
	}
	x.hasTerm = !x.con.noterm
	mut := map[string]bool{}
	for _, m := range x.con.mutates {
		mut[m] = true
	}
	for i, p := range x.params {
		t := mkVar("p!"+x.con.params[i]+intSuffix(p.Type()), sortOf(p.Type()))
		if t.sort == "U" {
			// what is known of an object belongs to the function
			t = mkVar("p!"+x.con.params[i]+"@"+x.key, t.sort)
		}
		if k := intKind(p.Type()); k != "" {
			varRange[t] = wrapKinds[k]
		} else {
			delete(varRange, t)
		}
		delete(varBirth, t)
		// interval results of terms over a parameter depend on its type
		x.pcells = append(x.pcells, -1)
		var val Val = t
		if mut[x.con.params[i]] {
			switch p.Type().Underlying().(type) {
			case *types.Slice:
				sv := x.newSlice(st, t)
				x.pcells[i] = sv.cell
				val = sv
			case *types.Map:
				id := x.newCell(st, t)
				x.pcells[i] = id
				val = &MapV{id}
			}
		}
		st.vars[p] = val
		x.pvals = append(x.pvals, val)
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && i == 0 && sig.Recv() != nil && !x.con.nilOK {
			st.addFact(mkNot(mkEq(t, tNil)), false)
		}
		x.assumeNonNil(st, p.Type(), t, tTrue)
		delete(allocTag, t)
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && (v.nonnil[typeKey(p.Type())] || i == 0 && sig.Recv() != nil && !x.con.nilOK) {
			allocTag[t] = tagOf(p.Type())
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && v.immut[typeKey(pt.Elem())] {
			// nothing
		}
	}
	stampNow++
	x.stampEntry = stampNow
	x.frame = &Frame{fn: x.fn, decl: d, sig: sig, pos: d.Pos(), path: x.key, recovers: hasRecover(v.p.info, d)}
	pb := func(s *State) binds {
		b := binds{}
		for i, n := range x.con.params {
			i := i
			b[n] = binding{typ: x.params[i].Type(), val: func() *Term { return x.term(x.entryOr(s), x.pvals[i]) }, old: func() *Term { return x.term(x.entryOr(s), x.pvals[i]) }}
		}
		return b
	}
	env := &SpecEnv{v: v, vars: map[types.Object]*Term{}, heap: x.heapFn(st), st: st}
	for _, c := range x.con.requires {
		st.addFact(v.evalClause(c, pb(st), env), false)
	}
	if len(cases) > 0 {
		if x.coverCases {
			var all []*Term
			for _, c := range cases {
				e := v.evalClause(c.c, pb(st), env)
				var alts []*Term
				for _, k := range c.vals {
					alts = append(alts, mkEq(e, mkI(k)))
				}
				all = append(all, mkOr(alts...))
			}
			x.oblige(st.clone(), "func", "cases-cover", mkAnd(all...), d.Pos(), nil)
		}
		var id []string
		for i, c := range cases {
			e := v.evalClause(c.c, pb(st), env)
			k := mkI(vals[i])
			id = append(id, fmt.Sprintf("%s=%d", c.c.src, vals[i]))
			if e.op == "ite" && e.args[1].op == "mod" && e.args[0] == mkLe(mkI(0), e.args[1].args[0]) {
				if lo, _ := st.bounds(e.args[1].args[0]); lo != nil && lo.Sign() >= 0 {
					e = e.args[1]
				}
			}
			if e.op == "mod" && e.args[0].op == "var" && e.args[1].op == "int" && e.args[1].num.Sign() > 0 {
				// the variable is a multiple plus the value
				q := mkVar(e.args[0].name+"/"+e.args[1].num.String(), "Int")
				delete(varRange, q)
				if lo, hi := st.bounds(e.args[0]); lo != nil && hi != nil {
					varRange[q] = [2]*big.Int{new(big.Int).Div(lo, e.args[1].num), new(big.Int).Div(hi, e.args[1].num)}
				}
				st.addFact(mkEq(e, k), false)
				k = mkAdd(mkMul(e.args[1], q), k)
				e = e.args[0]
			}
			if e.op == "var" {
				for j := range x.pvals {
					if x.pvals[j] == Val(e) {
						x.pvals[j] = k
						st.vars[x.params[j]] = k
					}
				}
				m := map[*Term]*Term{e: k}
				var fs []*Term
				for _, f := range st.factList() {
					fs = append(fs, substTerm(f, m, map[*Term]*Term{}))
				}
				st.facts = nil
				st.rng = map[*Term][2]*big.Int{}
				for _, f := range fs {
					st.addFact(f, false)
				}
				continue
			}
			st.addFact(mkEq(e, k), false)
		}
		for _, f := range st.factList() {
			if f == tFalse {
				// the precondition excludes the case
				return
			}
		}
		x.caseID = strings.Join(id, ",")
	}
	x.entry = st.clone()
	if len(x.con.requires) > 0 || x.caseID != "" {
		x.vacuity(st, "entry")
	}
	for _, c := range x.con.uses {
		x.useHints = append(x.useHints, v.evalClause(c, pb(st), env))
	}
	for _, c := range x.con.decr {
		x.decr = append(x.decr, v.evalClause(c, pb(st), env))
	}
	if x.hasTerm && len(x.con.decr) == 0 && v.sccRec[v.sccOf[x.fn]] {
		// recursion is caught at the recursive call
	}
	x.ifaceEntry(pb, env)
	x.namedResults(sig, st)
	falls, outs := x.block(d.Body.List, st)
	rets := x.returns(x.frame, falls, outs)
	for _, h := range x.con.hints {
		_ = h
	}
	if len(rets) > 0 && x.caseID == "" || len(rets) > 0 && x.coverCases {
		// at least one exit must be reachable
		var alts []*Term
		base := (*factNode)(nil)
		_ = base
		for _, r := range rets {
			alts = append(alts, mkAnd(r.st.factList()...))
		}
		o := &Obl{fn: x.key, kind: "vacuity", label: "exit", facts: []*Term{mkOr(alts...)}, goal: tFalse, vacuity: true, caseID: x.caseID, where: x.pos(d.Pos())}
		x.obls = append(x.obls, o)
	}
	for i, r := range rets {
		x.checkReturn(i, r, sig, pb, d)
	}
	for i, c := range x.con.finals {
		if !x.usedFinals[i] {
			panic(unsup{fmt.Sprintf("no return of the code has the variables of the clause %s", c.where), d.Pos()})
		}
	}
	for n := range x.con.loops {
		if !x.usedLoops[n] {
			panic(unsup{fmt.Sprintf("loop %d of the contract does not exist in the code", n), d.Pos()})
		}
	}
}

func (x *Exec) entryOr(s *State) *State {
	if x.entry != nil {
		return x.entry
	}
	return s
}

func (x *Exec) vacuity(st *State, label string) {
	if x.suppress > 0 {
		return
	}
	x.obls = append(x.obls, &Obl{fn: x.key, kind: "vacuity", label: label, facts: st.factList(), goal: tFalse, vacuity: true, caseID: x.caseID})
}

// ifaceContracts: contracts of interface methods this method implements
func (x *Exec) ifaceContracts() map[string]*Contract {
	r := map[string]*Contract{}
	sig := x.fn.Type().(*types.Signature)
	if sig.Recv() == nil {
		return r
	}
	for _, n := range x.v.p.pkg.Scope().Names() {
		tn, ok := x.v.p.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(sig.Recv().Type(), it) {
			continue
		}
		if c := x.v.cs.m[n+"."+x.fn.Name()]; c != nil && !c.trusted {
			r[n+"."+x.fn.Name()] = c
		}
	}
	return r
}

func (x *Exec) ifaceEntry(pb func(*State) binds, env *SpecEnv) {
	for _, k := range sortedKeys(x.ifaceContracts()) {
		ic := x.ifaceContracts()[k]
		st := &State{vars: map[types.Object]Val{}, cells: x.entry.cells, heap: map[string]*Term{}, rng: map[*Term][2]*big.Int{}, seen: map[int]*Term{}}
		for i, p := range x.params {
			if i == 0 {
				st.addFact(mkNot(mkEq(x.term(x.entry, x.pvals[0]), tNil)), false)
				continue
			}
			x.assumeNonNil(st, p.Type(), x.term(x.entry, x.pvals[i]), tTrue)
		}
		for _, c := range ic.requires {
			st.addFact(x.v.evalClause(c, x.ifaceBinds(ic, pb(x.entry)), env), false)
		}
		for i, c := range x.con.requires {
			l := c.label
			if l == "" {
				l = fmt.Sprint(i + 1)
			}
			x.oblige(st, "pre", "as "+k+":"+l, x.v.evalClause(c, pb(x.entry), env), x.fn.Pos(), nil)
		}
	}
}

func (x *Exec) ifaceBinds(ic *Contract, b binds) binds {
	r := binds{}
	for i, n := range ic.params {
		o := b[x.con.params[i]]
		if i == 0 {
			rt := x.params[0].Type()
			f := o.val
			o = binding{typ: types.NewInterfaceType(nil, nil), val: func() *Term { return mkBox(rt, f()) }}
			o.old = o.val
		}
		r[n] = o
	}
	for i, n := range ic.results {
		r[n] = b[x.con.results[i]]
	}
	return r
}

func (x *Exec) checkReturn(i int, r *Outcome, sig *types.Signature, pb func(*State) binds, d *ast.FuncDecl) {
	st := r.st
	b := pb(st)
	for j := range x.params {
		if c := x.pcells[j]; c >= 0 {
			j, c := j, c
			o := b[x.con.params[j]]
			b[x.con.params[j]] = binding{typ: o.typ, val: func() *Term { return st.cells[c].content }, old: o.old}
		}
	}
	pos := d.Body.End() - 1
	if len(x.con.results) != sig.Results().Len() && (len(x.con.results) > 0 || len(x.con.ensures) > 0) {
		panic(unsup{fmt.Sprintf("contract %s names %d results, the function has %d", x.key, len(x.con.results), sig.Results().Len()), token.NoPos})
	}
	for k := 0; k < sig.Results().Len(); k++ {
		rt := sig.Results().At(k).Type()
		val := r.rets[k]
		if _, ok := val.(*FuncV); ok {
			continue
		}
		t := x.term(st, val)
		if t.sort == "U" {
			x.checkNonNil(st, rt, t, pos, "result")
		}
		if k < len(x.con.results) {
			n := x.con.results[k]
			if x.con.owns[n] {
				ok := false
				switch w := plain(val).(type) {
				case *SliceV:
					c := st.cells[w.cell]
					ok = c.frozen == "" && c.shared == "" && !c.used && c.owner == ""
					for _, pc := range x.pcells {
						if pc == w.cell {
							ok = false
						}
					}
				case *MapV:
					ok = st.cells[w.cell].frozen == ""
				case *Term:
					ok = w.op == "lit" && w.name == "" || w.op == "mempty"
				}
				x.oblige(st, "frame", "result "+n+" is freshly allocated storage", mkBool(ok), pos, nil)
			}
			bd := binding{typ: rt, val: func() *Term { return t }}
			if _, ok := rt.Underlying().(*types.Slice); ok {
				bd.isnil = func() *Term { return x.nilness(st, val, t) }
			}
			b[n] = bd
		}
	}
	env := x.specEnv(st)
	// heap frame
	x.mods = nil
	for _, m := range x.con.modifies {
		oldEnv := &SpecEnv{v: x.v, vars: map[types.Object]*Term{}, heap: x.heapFn(x.entry), st: st}
		x.mods = append(x.mods, x.v.modLocs(m, pb(x.entry), oldEnv)...)
	}
	x.frameCheck(st, pos)
	ens := func(con *Contract, b binds, pre string) {
		for j, c := range con.ensures {
			l := c.label
			if l == "" {
				l = fmt.Sprint(j + 1)
			}
			t := x.v.evalClause(c, b, env)
			s2 := st.clone()
			for _, h := range con.hints {
				// hints: terms mentioned so that their definitions are unfolded
				x.pendingHints = append(x.pendingHints, x.v.evalClause(h, b, env))
			}
			x.oblige(s2, "func", pre+l, t, pos, c.props)
			x.pendingHints = nil
		}
	}
	ens(x.con, b, "")
	for j, c := range x.con.finals {
		l := c.label
		if l == "" {
			l = fmt.Sprint(j + 1)
		}
		fb := x.localBinds(st, pos, nil)
		for n, v := range b {
			fb[n] = v
		}
		t := x.tryClause(c, fb, env)
		if t == nil {
			continue
		}
		if x.usedFinals == nil {
			x.usedFinals = map[int]bool{}
		}
		x.usedFinals[j] = true
		x.oblige(st.clone(), "func", "finally-"+l, t, pos, c.props)
	}
	for _, k := range sortedKeys(x.ifaceContracts()) {
		ic := x.ifaceContracts()[k]
		ens(ic, x.ifaceBinds(ic, b), "as "+k+":")
	}
}

// tryClause evaluates a clause, nil if a name in it is missing.
func (x *Exec) tryClause(c *Clause, b binds, env *SpecEnv) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(missing); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return x.v.evalClause(c, b, env)
}

// newSince: the object was allocated since entry, on every path.
func (x *Exec) newSince(t *Term) bool {
	if t.op == "ite" {
		return x.newSince(t.args[1]) && x.newSince(t.args[2])
	}
	s, ok := stampOf(t)
	return ok && s > x.stampEntry
}

// frameCheck: everything outside the modifies clauses is as on entry.
func (x *Exec) frameCheck(st *State, pos token.Pos) {
	var comps []string
	for c := range st.heap {
		comps = append(comps, c)
	}
	sort.Strings(comps)
	for _, c := range comps {
		t := st.heap[c]
		t0 := x.heapGet(x.entry, c)
		if t == t0 {
			continue
		}
		whole := false
		var objs []*Term
		for _, m := range x.mods {
			if m.comp == c {
				if m.obj == nil {
					whole = true
				} else {
					objs = append(objs, m.obj)
				}
			}
		}
		if whole {
			continue
		}
		idx := map[*Term]bool{}
		opaque := false
		var peel func(t *Term)
		peel = func(t *Term) {
			for t != t0 {
				switch t.op {
				case "store":
					idx[t.args[1]] = true
					t = t.args[0]
					continue
				case "ite":
					peel(t.args[1])
					peel(t.args[2])
					return
				}
				opaque = true
				return
			}
		}
		peel(t)
		if opaque {
			bv := boundVar("U")
			var ex []*Term
			for _, o := range objs {
				ex = append(ex, mkEq(bv, o))
			}
			ex = append(ex, mkEq(mk("select", "", arrSorts[t.sort].v, t, bv), mk("select", "", arrSorts[t.sort].v, t0, bv)))
			x.oblige(st, "frame", c, mkForall([]*Term{bv}, mkOr(ex...)), pos, nil)
			continue
		}
		var is []*Term
		for i := range idx {
			is = append(is, i)
		}
		sort.Slice(is, func(a, b int) bool { return is[a].id < is[b].id })
		for _, i := range is {
			if s, ok := stampOf(i); ok && s > x.stampEntry {
				continue
			}
			if i == tNil || x.newSince(i) {
				continue
			}
			var ex []*Term
			if varBirth[i] > x.stampEntry && i.op == "var" && false {
				continue
			}
			for _, o := range objs {
				ex = append(ex, mkEq(i, o))
			}
			ex = append(ex, mkEq(i, tNil), mkEq(mkSelect(t, i), mkSelect(t0, i)))
			x.oblige(st.clone(), "frame", c, mkOr(ex...), pos, nil)
		}
	}
}

// genSpec generates the obligations of a specification function's own contract
// (a lemma proved by induction) and of its termination.
func (v *Verifier) genSpec(fn *types.Func) (res *FuncResult) {
	con := v.cs.m[fn.Name()]
	res = &FuncResult{key: fn.Name()}
	if con == nil || con.uninterp {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsup:
				p := ""
				if e.pos.IsValid() {
					p = v.p.posStr(e.pos) + ": "
				}
				res.undec = p + e.msg
			case missing:
				res.undec = e.Error()
			case bugErr:
				res.undec = e.msg
			default:
				panic(r)
			}
		}
	}()
	d := v.specDef(fn)
	sig := fn.Type().(*types.Signature)
	compT := map[string]*Term{}
	for i, c := range d.comps {
		compT[c] = d.cterms[i]
	}
	heap := func(c string) *Term { return compT[c] }
	if len(con.params) != len(d.formals) {
		panic(unsup{"contract of " + fn.Name() + ": parameter count", token.NoPos})
	}
	b := binds{}
	for i, n := range con.params {
		t := d.formals[i]
		b[n] = binding{typ: sig.Params().At(i).Type(), val: func() *Term { return t }}
	}
	env := &SpecEnv{v: v, vars: map[types.Object]*Term{}, heap: heap}
	var facts []*Term
	for _, c := range con.requires {
		facts = append(facts, v.evalClause(c, b, env))
	}
	self := mkApp("sp!"+d.name, d.result, append(append([]*Term{}, d.formals...), d.cterms...)...)
	if len(con.results) > 0 {
		b[con.results[0]] = binding{typ: sig.Results().At(0).Type(), val: func() *Term { return self }}
	}
	var hints []*Term
	for _, h := range con.hints {
		hints = append(hints, v.evalClause(h, b, env))
	}
	var dec []*Term
	for _, c := range con.decr {
		dec = append(dec, v.evalClause(c, b, env))
	}
	for i, c := range con.ensures {
		l := c.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		g := v.evalClause(c, b, env)
		gs := []*Term{g}
		if g.op == "and" {
			gs = g.args
		}
		for j, g := range gs {
			ll := l
			if len(gs) > 1 {
				ll = fmt.Sprintf("%s.%d", l, j+1)
			}
			res.obls = append(res.obls, &Obl{fn: fn.Name(), kind: "lemma", label: ll, facts: facts, goal: g, hints: hints, selfLemma: self, selfDec: dec, where: con.where})
		}
	}
	// termination: each recursive call is below the measure under its path condition
	if d.rec && v.isRecSpec(fn) && len(dec) > 0 {
		for i, rc := range recCalls(d.body, v, fn) {
			td := v.specName[rc.app.name]
			tc := v.cs.m[td.name]
			if tc == nil || len(tc.decr) == 0 {
				panic(unsup{"mutually recursive spec function without a measure: " + td.name, token.NoPos})
			}
			tb := binds{}
			ts := td.fn.Type().(*types.Signature)
			for k, n := range tc.params {
				t := rc.app.args[k]
				tb[n] = binding{typ: ts.Params().At(k).Type(), val: func() *Term { return t }}
			}
			var d2 []*Term
			for _, c := range tc.decr {
				d2 = append(d2, v.evalClause(c, tb, env))
			}
			res.obls = append(res.obls, &Obl{fn: fn.Name(), kind: "term", label: fmt.Sprintf("recursion%d", i+1), facts: append(append([]*Term{}, facts...), rc.cond...), goal: lexLess(d2, dec), hints: hints, where: con.where, selfLemma: self, selfDec: dec})
		}
	} else if d.rec && v.isRecSpec(fn) {
		v.assumption("specification function " + fn.Name() + " is taken to be total (no measure given)")
	}
	return
}

type recCall struct {
	app  *Term
	cond []*Term
}

// recCalls: the applications of functions in fn's recursive clique inside a body,
// with their path conditions.
func recCalls(body *Term, v *Verifier, fn *types.Func) []recCall {
	var r []recCall
	seen := map[string]bool{}
	var walk func(t *Term, cond []*Term)
	walk = func(t *Term, cond []*Term) {
		k := fmt.Sprint(t.id)
		for _, c := range cond {
			k += fmt.Sprintf(",%d", c.id)
		}
		if seen[k] {
			return
		}
		seen[k] = true
		ext := func(c *Term) []*Term { return append(append([]*Term{}, cond...), c) }
		switch t.op {
		case "ite":
			walk(t.args[0], cond)
			walk(t.args[1], ext(t.args[0]))
			walk(t.args[2], ext(mkNot(t.args[0])))
			return
		case "and":
			// short-circuit evaluation order is not kept: conjuncts are checked
			// under those that do not themselves recurse
			for i, a := range t.args {
				c := append([]*Term{}, cond...)
				for j, b := range t.args {
					if i != j && !hasSpecRec(b, v, fn) {
						c = append(c, b)
					}
				}
				walk(a, c)
			}
			return
		case "or":
			for i, a := range t.args {
				c := append([]*Term{}, cond...)
				for j, b := range t.args {
					if i != j && !hasSpecRec(b, v, fn) {
						c = append(c, mkNot(b))
					}
				}
				walk(a, c)
			}
			return
		case "imp":
			walk(t.args[0], cond)
			walk(t.args[1], ext(t.args[0]))
			return
		}
		if t.op == "app" {
			if d, ok := v.specName[t.name]; ok && (d.fn == fn || v.mutual(fn, d.fn)) {
				r = append(r, recCall{t, cond})
			}
		}
		for _, a := range t.args {
			walk(a, cond)
		}
	}
	walk(body, nil)
	return r
}

func hasSpecRec(t *Term, v *Verifier, fn *types.Func) bool {
	if t.op == "app" {
		if d, ok := v.specName[t.name]; ok && (d.fn == fn || v.mutual(fn, d.fn)) {
			return true
		}
	}
	for _, a := range t.args {
		if hasSpecRec(a, v, fn) {
			return true
		}
	}
	return false
}

func (v *Verifier) mutual(f, g *types.Func) bool {
	return v.sccOf[f] == v.sccOf[g] && v.sccRec[v.sccOf[f]]
}

// intSuffix keeps parameters of different integer kinds apart in the term table
func intSuffix(t types.Type) string {
	if k := intKind(t); k != "" && k != "int64" {
		return "!" + k
	}
	return ""
}
