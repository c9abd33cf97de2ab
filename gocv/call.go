package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// call evaluates a call; a nil state means that the call does not return.
func (x *Exec) call(c *ast.CallExpr, st *State) (*State, []Val) {
	x.tick(c.Pos())
	info := x.info()
	if tv, ok := info.Types[c.Fun]; ok && tv.IsType() {
		r := x.evalE(c.Args[0], st)
		return r.st, []Val{x.convert(r.st, r.v, x.typeOf(c.Args[0]), tv.Type, c.Pos())}
	}
	fun := ast.Unparen(c.Fun)
	if fl, ok := fun.(*ast.FuncLit); ok {
		if len(c.Args) > 0 {
			panic(unsupported(c.Pos(), "function literal with arguments"))
		}
		return x.runLit(fl, st, c.Pos())
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, isB := info.Uses[id].(*types.Builtin); isB {
			return x.builtin(id.Name, c, st)
		}
		if o, isV := info.Uses[id].(*types.Var); isV {
			if f, ok := st.vars[o].(*FuncV); ok && len(c.Args) == 0 {
				return x.runLit(f.lit, st, c.Pos())
			}
		}
	}
	fn := calleeOf(info, c)
	if fn == nil {
		panic(unsupported(c.Pos(), "call of a function value"))
	}
	fn = fn.Origin()
	sig := fn.Type().(*types.Signature)
	key := funcKey(fn, x.v.p.pkg)
	if key == "sort.Slice" || key == "sort.SliceStable" || key == "slices.Sort" {
		return x.sortSlice(c, key, st), nil
	}
	if key == "regexp.MustCompile" {
		if tv, ok := info.Types[c.Args[0]]; ok && tv.Value != nil {
			if t, ok := constTerm(tv); ok && t.op == "lit" {
				return st, []Val{mkApp("new_regexp", "U", t)}
			}
		}
	}
	var args []Val
	var atypes []types.Type
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		if s, ok := info.Selections[sel]; ok {
			if s.Kind() != types.MethodVal {
				panic(unsupported(c.Pos(), "method expression"))
			}
			r := x.evalE(sel.X, st)
			st = r.st
			v, rt := r.v, x.typeOf(sel.X)
			if idx := s.Index(); len(idx) > 1 {
				t := x.walkFields(st, x.term(st, v), rt, idx[:len(idx)-1], c.Pos())
				v = t
				for _, i := range idx[:len(idx)-1] {
					base := rt
					if p, ok := base.Underlying().(*types.Pointer); ok {
						base = p.Elem()
					}
					rt = base.Underlying().(*types.Struct).Field(i).Type()
				}
			}
			// value receiver through a pointer
			_, wantPtr := sig.Recv().Type().Underlying().(*types.Pointer)
			_, havePtr := rt.Underlying().(*types.Pointer)
			if havePtr && !wantPtr && !types.IsInterface(sig.Recv().Type()) {
				panic(unsupported(c.Pos(), "value method through a pointer"))
			}
			if types.IsInterface(rt) {
				u := x.term(st, v)
				x.derefCheck(st, u, rt, c.Pos())
				// dynamic type known: dispatch statically
				if k := mkTyp(u); k.op == "int" {
					for _, key2 := range sortedKeys(x.v.p.byKey) {
						f2 := x.v.p.byKey[key2]
						s2 := f2.Type().(*types.Signature)
						if f2.Name() == fn.Name() && s2.Recv() != nil && tagOf(s2.Recv().Type()) == k.num.Int64() {
							fn, sig, key = f2, s2, key2
							v = mkUnbox(s2.Recv().Type(), u)
							break
						}
					}
				}
			}
			args = append(args, v)
			atypes = append(atypes, rt)
		}
	}
	np := sig.Params().Len()
	if len(c.Args) == 1 && np > 1 {
		if inner, ok := ast.Unparen(c.Args[0]).(*ast.CallExpr); ok {
			if tup, ok := x.typeOf(inner).(*types.Tuple); ok {
				nst, rv := x.call(inner, st)
				if nst == nil {
					return nil, nil
				}
				st = nst
				for i, v := range rv {
					args = append(args, x.conv(st, v, tup.At(i).Type(), sig.Params().At(i).Type()))
					atypes = append(atypes, tup.At(i).Type())
				}
				return x.dispatch(c, fn, sig, key, args, nil, nil, st)
			}
		}
	}
	var variadic []Val
	var vtypes []types.Type
	for i, a := range c.Args {
		r := x.evalE(a, st)
		st = r.st
		at := x.typeOf(a)
		if sig.Variadic() && i >= np-1 && !c.Ellipsis.IsValid() {
			et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
			if types.IsInterface(et) {
				if f, ok := r.v.(*FuncV); ok {
					variadic = append(variadic, f)
				} else {
					variadic = append(variadic, r.v)
				}
			} else {
				variadic = append(variadic, x.conv(st, r.v, at, et))
			}
			vtypes = append(vtypes, at)
			continue
		}
		var pt types.Type
		if i < np {
			pt = sig.Params().At(i).Type()
		}
		v := x.conv(st, r.v, at, pt)
		if pt != nil {
			if _, isF := v.(*FuncV); !isF {
				x.checkNonNil(st, pt, v, a.Pos(), "argument")
			}
		}
		args = append(args, v)
		atypes = append(atypes, at)
	}
	return x.dispatch(c, fn, sig, key, args, variadic, vtypes, st)
}

func (x *Exec) dispatch(c *ast.CallExpr, fn *types.Func, sig *types.Signature, key string, args, variadic []Val, vtypes []types.Type, st *State) (*State, []Val) {
	if m, ok := models[key]; ok && !c.Ellipsis.IsValid() {
		return m(x, c, args, variadic, vtypes, st)
	}
	if key == "fmt.Fprintf" && c.Ellipsis.IsValid() {
		return x.writeTo(st, c, x.term(st, args[0]), mkApp("sprintfv", "Seq_B", x.term(st, args[1]), x.term(st, args[2])))
	}
	if key == "fmt.Printf" && !c.Ellipsis.IsValid() {
		return x.writeComp(st, "g_tty", x.stdout(), x.sprintf(st, x.term(st, args[0]), variadic, vtypes))
	}
	if key == "fmt.Println" && !c.Ellipsis.IsValid() {
		return x.writeComp(st, "g_tty", x.stdout(), mkCat(x.sprint(st, variadic, vtypes, " "), mkLit("\n")))
	}
	con := x.v.cs.m[key]
	if con != nil && con.inlineAlways && x.v.p.decls[fn] != nil {
		con = nil
	}
	if x.v.p.specFn[fn] {
		panic(unsupported(c.Pos(), "the code calls a specification function"))
	}
	if con != nil {
		x.v.curUsed[key] = true
		if sig.Variadic() && len(variadic) > 0 || sig.Variadic() && !c.Ellipsis.IsValid() {
			// variadic arguments become one sequence value
			et := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
			srt := sortOf(et)
			var ps []*Term
			for i, v := range variadic {
				v2 := x.conv(st, v, vtypes[i], et.Elem())
				ps = append(ps, mkUnit(srt, x.capture(st, v2)))
			}
			args = append(args, catOf(srt, ps))
		}
		old := x.callExpr
		x.callExpr = c
		st, rv := x.applyContract(con, fn, sig, key, args, st, c.Pos())
		x.callExpr = old
		return st, rv
	}
	d := x.v.p.decls[fn]
	if d == nil || d.Body == nil {
		panic(unsupported(c.Pos(), "call of %s, which has no contract", key))
	}
	if sig.Variadic() && !c.Ellipsis.IsValid() {
		et := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
		srt := sortOf(et)
		var ps []*Term
		for i, v := range variadic {
			v2 := x.conv(st, v, vtypes[i], et.Elem())
			ps = append(ps, mkUnit(srt, x.capture(st, v2)))
		}
		args = append(args, x.newSlice(st, catOf(srt, ps)))
	}
	return x.inline(fn, d, sig, key, args, st, c.Pos())
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	if types.IsInterface(to) {
		return x.conv(st, v, from, to)
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroTermNil(to)
	}
	fs, ts := sortOf(from), sortOf(to)
	_, fStr := from.Underlying().(*types.Basic)
	_, tStr := to.Underlying().(*types.Basic)
	if fs == ts {
		if ts == "Seq_B" && fStr != tStr {
			// string <-> []byte copies
			t := x.term(st, v)
			if tStr {
				return t
			}
			return x.newSlice(st, t)
		}
		if ts == "Int" {
			return st.wrap(intKind(to), x.term(st, v))
		}
		return v
	}
	t := x.term(st, v)
	if fs == "Int" && ts == "Seq_B" && tStr {
		return mkApp("utf8", "Seq_B", t)
	}
	if fs == "Int" && ts == "F" {
		return mkI2F(t)
	}
	if r := convertTerm(t, from, to, st.wrap); r != nil {
		if r.op == "app" && strings.HasPrefix(r.name, "f2i_") && t.op == "app" && t.name == "i2f" {
			lo, hi := st.bounds(t.args[0])
			lim := pow2(53)
			k := wrapKinds[intKind(to)]
			if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(lim)) >= 0 && hi.Cmp(lim) <= 0 && lo.Cmp(k[0]) >= 0 && hi.Cmp(k[1]) <= 0 {
				return t.args[0]
			}
		}
		return r
	}
	panic(unsupported(pos, "conversion from %s to %s", from, to))
}

// runLit runs a function literal in place.
func (x *Exec) runLit(fl *ast.FuncLit, st *State, pos token.Pos) (*State, []Val) {
	sig := x.typeOf(fl).(*types.Signature)
	f := &Frame{sig: sig, parent: x.frame, pos: pos, path: fmt.Sprintf("%s/lit%d", x.frame.path, fl.Pos()), lit: true}
	saved := st.defers
	st.defers = nil
	x.frame = f
	falls, outs := x.block(fl.Body.List, st)
	rs, rv := x.finish(f, falls, outs)
	x.frame = f.parent
	if rs == nil {
		return nil, nil
	}
	rs.defers = saved
	return rs, rv
}

const maxInline = 10

func (x *Exec) inline(fn *types.Func, d *ast.FuncDecl, sig *types.Signature, key string, args []Val, st *State, pos token.Pos) (*State, []Val) {
	n := 0
	for f := x.frame; f != nil; f = f.parent {
		n++
		if f.fn == fn {
			panic(unsupported(pos, "recursive function %s without a contract", key))
		}
	}
	if n > maxInline {
		panic(unsupported(pos, "inlining too deep"))
	}
	x.v.inlined[key] = true
	f := &Frame{fn: fn, decl: d, sig: sig, parent: x.frame, pos: pos, path: fmt.Sprintf("%s/%s@%d", x.frame.path, key, pos)}
	f.recovers = hasRecover(x.info(), d)
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	if len(ps) != len(args) {
		panic(unsupported(pos, "argument count of %s", key))
	}
	for i, p := range ps {
		st.vars[p] = args[i]
	}
	x.namedResults(sig, st)
	saved := st.defers
	st.defers = nil
	x.frame = f
	falls, outs := x.block(d.Body.List, st)
	rs, rv := x.finish(f, falls, outs)
	x.frame = f.parent
	if rs == nil {
		return nil, nil
	}
	rs.defers = saved
	return rs, rv
}

func (x *Exec) namedResults(sig *types.Signature, st *State) {
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		if r.Name() != "" && r.Name() != "_" {
			st.vars[r] = x.zeroVal(st, r.Type(), r.Pos())
		}
	}
}

func hasRecover(info *types.Info, d *ast.FuncDecl) bool {
	r := false
	ast.Inspect(d.Body, func(n ast.Node) bool {
		if df, ok := n.(*ast.DeferStmt); ok {
			ast.Inspect(df, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "recover" {
						r = true
					}
				}
				return true
			})
		}
		return true
	})
	return r
}

// returns turns the end states of a function body into return outcomes with
// the deferred calls run.
func (x *Exec) returns(f *Frame, falls []*State, outs []*Outcome) []*Outcome {
	var rs []*Outcome
	for _, s := range falls {
		var rets []Val
		for i := 0; i < f.sig.Results().Len(); i++ {
			rets = append(rets, s.vars[f.sig.Results().At(i)])
		}
		rs = append(rs, &Outcome{oReturn, s, rets})
	}
	for _, o := range outs {
		if o.kind != oReturn {
			panic(unsupported(f.pos, "break or continue out of a function"))
		}
		rs = append(rs, o)
	}
	var out []*Outcome
	for _, r := range rs {
		s := x.runDefers(f, r.st, false)
		if s == nil {
			continue
		}
		rets := r.rets
		for i := 0; i < f.sig.Results().Len(); i++ {
			q := f.sig.Results().At(i)
			if q.Name() != "" && q.Name() != "_" {
				if v, ok := s.vars[q]; ok {
					rets[i] = v
				}
			}
		}
		out = append(out, &Outcome{oReturn, s, rets})
	}
	if f.recovers {
		ps := f.panics
		f.panics = nil
		f.recovers = false
		for _, p := range ps {
			s := x.runDefers(f, p.st, true)
			if s == nil {
				continue
			}
			var rets []Val
			for i := 0; i < f.sig.Results().Len(); i++ {
				q := f.sig.Results().At(i)
				if v, ok := s.vars[q]; ok && q.Name() != "" && q.Name() != "_" {
					rets = append(rets, v)
				} else {
					rets = append(rets, x.zeroVal(s, q.Type(), f.pos))
				}
			}
			out = append(out, &Outcome{oReturn, s, rets})
		}
		f.recovers = true
	}
	return out
}

// finish merges the return outcomes of an inlined body.
func (x *Exec) finish(f *Frame, falls []*State, outs []*Outcome) (*State, []Val) {
	rs := x.returns(f, falls, outs)
	if len(rs) == 0 {
		return nil, nil
	}
	var sts []*State
	var vals [][]Val
	for _, r := range rs {
		sts = append(sts, r.st)
		vals = append(vals, r.rets)
	}
	if f.sig.Results().Len() == 0 {
		vals = nil
	}
	for _, s := range sts {
		s.defers = nil
	}
	return x.merge(sts, vals)
}

func (x *Exec) runDefers(f *Frame, st *State, panicking bool) *State {
	ds := st.defers
	st.defers = nil
	rec := !panicking
	x.panicVal = tNil
	if panicking {
		x.panicVal = newAlloc("panic")
	}
	rf := f.recovers
	f.recovers = false
	defer func() { f.recovers = rf }()
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		x.recovered = false
		if fv, ok := d.fn.(*FuncV); ok {
			s, _ := x.runLit(fv.lit, st, d.call.Pos())
			if s == nil {
				return nil
			}
			st = s
		} else {
			st = x.deferredCall(d, st)
		}
		if x.recovered {
			rec = true
			x.panicVal = tNil
		}
	}
	x.panicVal = tNil
	if !rec {
		// a panic that is not recovered
		x.oblige(st, "safe", "unrecovered panic", tFalse, f.pos, nil)
		return nil
	}
	return st
}

func (x *Exec) deferredCall(d deferRec, st *State) *State {
	fn := calleeOf(x.info(), d.call)
	if fn == nil {
		panic(unsupported(d.call.Pos(), "deferred call"))
	}
	fn = fn.Origin()
	sig := fn.Type().(*types.Signature)
	s, _ := x.dispatch(d.call, fn, sig, funcKey(fn, x.v.p.pkg), d.args, nil, nil, st)
	if s == nil {
		panic(unsupported(d.call.Pos(), "deferred call does not return"))
	}
	return s
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(con *Contract, fn *types.Func, sig *types.Signature, key string, args []Val, st *State, pos token.Pos) (*State, []Val) {
	if con.trusted || sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		x.v.usedExt[key] = true
	}
	if len(con.params) != len(args) {
		panic(unsup{fmt.Sprintf("contract %s (%s) names %d parameters, the function has %d", key, con.where, len(con.params), len(args)), pos})
	}
	var ptypes []types.Type
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	pre := st.clone()
	b := binds{}
	ats := make([]*Term, len(args))
	for i := range args {
		if _, ok := args[i].(*FuncV); ok {
			continue
		}
		i := i
		ats[i] = x.term(pre, args[i])
		t := ats[i]
		b[con.params[i]] = binding{typ: ptypes[i], val: func() *Term { return t }, old: func() *Term { return t }}
	}
	env := &SpecEnv{v: x.v, vars: map[types.Object]*Term{}, heap: x.heapFn(pre), st: st}
	// receiver of a pointer method must not be nil
	if sig.Recv() != nil && !con.nilOK {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			g := mkNot(mkEq(ats[0], tNil))
			if k, ok := st.known(g); g != tTrue && !(ok && k) {
				x.safeKind(st, "pre", key+": receiver not nil", g, pos)
			}
		}
	}
	for i, c := range con.requires {
		l := c.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		x.safeKind(st, "pre", key+":"+l, x.evalClause(c, b, env), pos)
	}
	// termination of recursion
	if x.hasTerm && !con.noterm && (!con.trusted && x.v.sameSCC(x.fn, fn) || con.trusted && len(con.decr) > 0) {
		if len(con.decr) == 0 {
			x.oblige(st, "term", "recursive call of "+key+" without a measure", tFalse, pos, nil)
		} else {
			var ds []*Term
			for _, c := range con.decr {
				ds = append(ds, x.evalClause(c, b, env))
			}
			x.oblige(st, "term", "call of "+key, lexLess(ds, x.decr), pos, nil)
		}
	}
	if con.noret {
		return nil, nil
	}
	stampNow++
	callStamp := stampNow
	// modified locations
	type loc struct {
		comp string
		obj  *Term
		v    *Term
	}
	var freshVars []*Term
	var locs []loc
	for _, m := range con.modifies {
		ml := x.v.modLocs(m, b, env)
		for _, l := range ml {
			h := x.heapGet(st, l.comp)
			if l.obj == nil {
				st.heap[l.comp] = newVar("heap!"+sanitize(l.comp), h.sort)
				continue
			}
			if l.obj.op == "ite" && mkEq(l.obj, tNil) != tFalse {
				// fine: a store at nil is harmless
			}
			v := newVar("m!"+sanitize(l.comp), arrSorts[h.sort].v)
			if r, ok := x.v.compRange[l.comp]; ok {
				varRange[v] = r
			}
			freshVars = append(freshVars, v)
			locs = append(locs, loc{l.comp, l.obj, v})
			st.heap[l.comp] = mkStore(h, l.obj, v)
		}
	}
	// mutated slices and maps
	type mut struct {
		i int
		v *Term
	}
	var muts []mut
	for i, n := range con.params {
		is := false
		for _, m := range con.mutates {
			if m == n {
				is = true
			}
		}
		if !is {
			continue
		}
		v := newVar("mut!"+n, ats[i].sort)
		freshVars = append(freshVars, v)
		if isSeq(v.sort) {
			st.addFact(mkEq(mkLen(v), mkLen(ats[i])), false)
		}
		muts = append(muts, mut{i, v})
	}
	post := binds{}
	for k, v := range b {
		post[k] = v
	}
	for _, m := range muts {
		v := m.v
		o := ats[m.i]
		post[con.params[m.i]] = binding{typ: ptypes[m.i], val: func() *Term { return v }, old: func() *Term { return o }}
	}
	// results
	var res []*Term
	nilOf := map[int]*Term{}
	isFresh := map[*Term]bool{}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := x.freshOf("r!"+fn.Name(), rt)
		freshVars = append(freshVars, r)
		res = append(res, r)
		if i < len(con.results) {
			bd := binding{typ: rt, val: func() *Term { return r }}
			if _, ok := rt.Underlying().(*types.Slice); ok {
				i := i
				bd.isnil = func() *Term {
					if nilOf[i] == nil {
						nilOf[i] = newVar("isnil!"+con.results[i], "Bool")
						isFresh[nilOf[i]] = true
					}
					return nilOf[i]
				}
			}
			post[con.results[i]] = bd
		}
	}
	if len(con.results) != sig.Results().Len() && len(con.results) > 0 {
		panic(unsup{fmt.Sprintf("contract %s (%s) names %d results, the function has %d", key, con.where, len(con.results), sig.Results().Len()), pos})
	}
	penv := &SpecEnv{v: x.v, vars: map[types.Object]*Term{}, heap: x.heapFn(st), st: st, old: env}
	newRefs := map[*Term]bool{}
	penv.fresh = func(t *Term) *Term {
		newRefs[t] = true
		return tTrue
	}
	var facts []*Term
	for _, c := range con.ensures {
		facts = append(facts, x.evalClause(c, post, penv))
	}
	// objects the callee allocated
	sub := map[*Term]*Term{}
	for _, v := range freshVars {
		isFresh[v] = true
	}
	for t := range newRefs {
		if isFresh[t] {
			n := newAlloc("alloc")
			isFresh[n] = false
			for i, r := range res {
				if r != t {
					continue
				}
				if pt, ok := sig.Results().At(i).Type().(*types.Pointer); ok {
					allocTag[n] = tagOf(pt)
				}
			}
			sub[t] = n
		}
	}
	// definitional postconditions determine the fresh symbols outright
	var rest []*Term
	memo := map[*Term]*Term{}
	def := func(v, e *Term) bool {
		if !isFresh[v] || sub[v] != nil || occurs(v, e) {
			return false
		}
		nm := map[*Term]*Term{v: e}
		for k, o := range sub {
			sub[k] = substTerm(o, nm, map[*Term]*Term{})
		}
		sub[v] = e
		memo = map[*Term]*Term{}
		return true
	}
	for _, f := range flattenAnd(facts) {
		f = substTerm(f, sub, memo)
		if f.op == "eq" {
			if def(f.args[0], f.args[1]) || def(f.args[1], f.args[0]) {
				continue
			}
		}
		if f.op == "var" && isFresh[f] && def(f, tTrue) {
			continue
		}
		if f.op == "not" && isFresh[f.args[0]] && def(f.args[0], tFalse) {
			continue
		}
		rest = append(rest, f)
	}
	memo = map[*Term]*Term{}
	sb := func(t *Term) *Term { return substTerm(t, sub, memo) }
	for c, h := range st.heap {
		st.heap[c] = sb(h)
	}
	if len(sub) > 0 {
		// facts pushed since the call began mention only the mutated-length facts
	}
	for _, m := range muts {
		nv := sb(m.v)
		switch w := plain(args[m.i]).(type) {
		case *SliceV:
			x.writeCell(st, w.cell, pos, func(c *Term) *Term {
				if w.off == mkI(0) && w.ln == mkLen(c) {
					return nv
				}
				return catOf(c.sort, append(append(pieces(mkSubSeq(c, mkI(0), w.off)), pieces(nv)...), pieces(mkSubSeq(c, mkAdd(w.off, w.ln), mkLen(c)))...))
			})
			if nv != m.v {
				st.addFact(mkEq(mkLen(nv), mkLen(ats[m.i])), false)
			}
		case *MapV:
			x.writeCell(st, w.cell, pos, func(c *Term) *Term { return nv })
		case *Term:
			if isSeq(w.sort) && x.writeHeld(st, m.i, sig, w, nv) {
				if nv != m.v {
					st.addFact(mkEq(mkLen(nv), mkLen(ats[m.i])), false)
				}
			} else if isSeq(w.sort) || isMap(w.sort) {
				// the callee writes to storage this function does not own
				if mc := mkEq(mkLen0(w), mkI(0)); mc != tTrue {
					x.oblige(st, "frame", "call of "+key+" writes to a value the contract does not list as mutated", tFalse, pos, nil)
				}
			}
		}
	}
	made := func(t *Term) bool {
		if t.op != "select" {
			return false
		}
		if s, ok := allocStamp[t.args[1]]; ok {
			return s > callStamp
		}
		for _, r := range res {
			if con.trusted && sb(r) == t.args[1] && t.args[1].op == "app" && companionFn[t.args[1].name] {
				return true
			}
		}
		return false
	}
	init := func(t, v *Term) bool { return made(t) && x.initNew(st, t, v) }
	for _, f := range rest {
		f = sb(f)
		if f.op == "eq" && (init(f.args[0], f.args[1]) || init(f.args[1], f.args[0])) {
			continue
		}
		if f.op == "select" && init(f, tTrue) || f.op == "not" && init(f.args[0], tFalse) {
			continue
		}
		st.addFact(f, false)
	}
	var rv []Val
	for i := range res {
		t := sb(res[i])
		rt := sig.Results().At(i).Type()
		if i < len(con.results) && con.owns[con.results[i]] {
			if isMap(t.sort) {
				rv = append(rv, &MapV{x.newCell(st, t)})
			} else {
				rv = append(rv, x.newSlice(st, t))
			}
			continue
		}
		if t.sort == "U" {
			x.assumeNonNil(st, rt, t, tTrue)
		}
		if k := intKind(rt); k != "" && t != res[i] {
			w := wrapKinds[k]
			st.addFact(mkAnd(mkLe(mkInt(w[0]), t), mkLe(t, mkInt(w[1]))), false)
		}
		if t == res[i] && t.sort == "U" {
			varBirth[t] = callStamp
		}
		if key == "bytes.Buffer.Bytes" {
			sv := x.newSlice(st, t)
			ob := ats[0]
			st.updCell(sv.cell, func(c *Cell) { c.owner, c.ownerOb = "g_buf", ob })
			x.v.assumption("the result of bytes.Buffer.Bytes is not used after the buffer shrinks and grows again")
			rv = append(rv, sv)
			continue
		}
		if n := nilOf[i]; n != nil {
			st.addFact(mkImp(sb(n), mkEq(mkLen(t), mkI(0))), false)
			rv = append(rv, &NilV{t, sb(n)})
			continue
		}
		rv = append(rv, t)
	}
	return st, rv
}

// initNew: the ghost state of an object the function allocated is given its value by
// storing it, where nothing is known of it yet.
func (x *Exec) initNew(st *State, t, v *Term) bool {
	if t.op != "select" || occurs(t, v) {
		return false
	}
	if s, ok := stampOf(t.args[1]); !ok || s <= x.stampEntry {
		return false
	}
	for c := range x.v.compSort {
		h := x.heapGet(st, c)
		if h != t.args[0] {
			continue
		}
		for h.op == "store" {
			h = h.args[0]
		}
		if h.op != "var" || birthOf(h) > x.stampEntry {
			return false
		}
		st.heap[c] = mkStore(t.args[0], t.args[1], v)
		return true
	}
	return false
}

// writeHeld: the callee wrote to a slice that only a field refers to, which was the
// argument.
func (x *Exec) writeHeld(st *State, i int, sig *types.Signature, w, nv *Term) bool {
	if sig.Recv() != nil {
		i--
	}
	if x.callExpr == nil || i < 0 || i >= len(x.callExpr.Args) {
		return false
	}
	se, ok := ast.Unparen(x.callExpr.Args[i]).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	s, ok := x.info().Selections[se]
	if !ok || s.Kind() != types.FieldVal || len(s.Index()) != 1 {
		return false
	}
	id, ok := ast.Unparen(se.X).(*ast.Ident)
	if !ok {
		return false
	}
	obj := x.term(st, x.evalE(id, st).v)
	base := x.typeOf(se.X)
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	key := x.v.fieldKey(base, s.Obj().(*types.Var))
	for k, c := range st.cells {
		if c.capKey == key && c.capObj == obj && c.loads == 1 && c.content == w {
			h := x.v.comp(key, nv.sort)
			st.heap[h] = mkStore(x.heapGet(st, h), obj, nv)
			t := newVar("stale", nv.sort)
			st.addFact(mkEq(mkLen(t), mkLen(nv)), false)
			st.updCell(k, func(c *Cell) { c.content, c.loads = t, 0 })
			return true
		}
	}
	return false
}

func mkLen0(t *Term) *Term {
	if isSeq(t.sort) {
		return mkLen(t)
	}
	if t.op == "mempty" {
		return mkI(0)
	}
	return mkApp("mcard", "Int", t)
}

func flattenAnd(fs []*Term) []*Term {
	var r []*Term
	for _, f := range fs {
		if f.op == "and" {
			r = append(r, flattenAnd(f.args)...)
		} else if f != tTrue {
			r = append(r, f)
		}
	}
	return r
}

var occCache = map[[2]int]bool{}

func occurs(v, t *Term) bool {
	if v == t {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	k := [2]int{v.id, t.id}
	if r, ok := occCache[k]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if occurs(v, a) {
			r = true
			break
		}
	}
	occCache[k] = r
	return r
}

// modLocs: the locations a modifies clause denotes.
func (v *Verifier) modLocs(c *Clause, b binds, env *SpecEnv) []modLoc {
	e := ast.Unparen(c.expr)
	switch y := e.(type) {
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if _, bound := b[id.Name]; !bound {
				if v.p.pkg.Scope().Lookup(id.Name) == nil {
					for _, q := range v.p.pkg.Imports() {
						if g, ok := q.Scope().Lookup(y.Sel.Name).(*types.Var); ok && q.Name() == id.Name {
							return []modLoc{{v.comp(v.globalComp(g), sortOf(g.Type())), mkVar("globals", "U")}}
						}
					}
				}
				if tn, ok := v.p.pkg.Scope().Lookup(id.Name).(*types.TypeName); ok {
					// Type.field: every object
					st := tn.Type().Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == y.Sel.Name {
							k := v.fieldKey(tn.Type(), st.Field(i))
							if v.final[k] {
								return nil
							}
							return []modLoc{{v.comp(k, sortOf(st.Field(i).Type())), nil}}
						}
					}
				}
			}
		}
		o := v.evalClause(&Clause{src: c.src, expr: y.X, where: c.where}, b, env)
		t := v.p.info.TypeOf(y.X)
		base := t
		if p, ok := base.Underlying().(*types.Pointer); ok {
			base = p.Elem()
		}
		s, ok := base.Underlying().(*types.Struct)
		if !ok {
			panic(unsup{"modifies clause " + c.where, token.NoPos})
		}
		// promoted fields
		obj, index, _ := types.LookupFieldOrMethod(t, true, v.p.pkg, y.Sel.Name)
		if obj == nil {
			panic(unsup{"modifies clause " + c.where + ": no field " + y.Sel.Name, token.NoPos})
		}
		for k, i := range index {
			f := s.Field(i)
			if k == len(index)-1 {
				key := v.fieldKey(base, f)
				if v.final[key] {
					return nil
				}
				return []modLoc{{v.comp(key, sortOf(f.Type())), o}}
			}
			o = v.readField(base, i, o, env.heap)
			base = f.Type()
			if p, ok := base.Underlying().(*types.Pointer); ok {
				base = p.Elem()
			}
			s = base.Underlying().(*types.Struct)
		}
	case *ast.CallExpr:
		id, ok := y.Fun.(*ast.Ident)
		if ok && v.cs.ghost[id.Name] {
			fo, _ := v.p.pkg.Scope().Lookup(id.Name).(*types.Func)
			if fo == nil {
				panic(unsup{"modifies clause " + c.where, token.NoPos})
			}
			comp := v.comp(id.Name, sortOf(fo.Type().(*types.Signature).Results().At(0).Type()))
			if a, ok := y.Args[0].(*ast.Ident); ok && a.Name == "EVERY" {
				return []modLoc{{comp, nil}}
			}
			o := v.evalClause(&Clause{src: c.src, expr: y.Args[0], where: c.where}, b, env)
			return []modLoc{{comp, o}}
		}
	case *ast.Ident:
		if g, ok := v.p.pkg.Scope().Lookup(y.Name).(*types.Var); ok {
			return []modLoc{{v.comp("global."+y.Name, sortOf(g.Type())), mkVar("globals", "U")}}
		}
	}
	panic(unsup{"modifies clause " + c.where + ": " + c.src, token.NoPos})
}

// builtins -------------------------------------------------------------------------

var maxAlloc = new(big.Int).Lsh(big.NewInt(1), 40)

func (x *Exec) builtin(name string, c *ast.CallExpr, st *State) (*State, []Val) {
	switch name {
	case "len":
		r := x.evalE(c.Args[0], st)
		if sv, ok := r.v.(*SliceV); ok {
			return r.st, []Val{sv.ln}
		}
		t := x.term(r.st, r.v)
		if isMap(t.sort) {
			n := mkApp("mcard", "Int", t)
			r.st.addFact(mkLe(mkI(0), n), false)
			return r.st, []Val{n}
		}
		return r.st, []Val{mkLen(t)}
	case "cap":
		r := x.evalE(c.Args[0], st)
		n := newVar("cap", "Int")
		r.st.addFact(mkLe(mkLen(x.term(r.st, r.v)), n), false)
		return r.st, []Val{n}
	case "new":
		t := x.typeOf(c.Args[0])
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsupported(c.Pos(), "new of %s", t))
		}
		if x.v.immut[typeKey(t)] {
			var vals []*Term
			for i := 0; i < s.NumFields(); i++ {
				vals = append(vals, zeroTerm(s.Field(i).Type()))
			}
			return st, []Val{x.build(st, t, vals, c.Pos())}
		}
		o := newAlloc("new")
		allocTag[o] = tagOf(types.NewPointer(t))
		x.initObject(st, t, s, o)
		return st, []Val{o}
	case "make":
		t := x.typeOf(c.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Map:
			return st, []Val{&MapV{x.newCell(st, mkMEmpty(sortOf(t)))}}
		case *types.Slice:
			r := x.evalE(c.Args[1], st)
			st = r.st
			n := x.term(st, r.v)
			x.safe(st, "make: negative length", mkLe(mkI(0), n), c.Pos())
			x.safe(st, "make: length too large", mkLe(n, mkInt(maxAlloc)), c.Pos())
			if len(c.Args) > 2 {
				q := x.evalE(c.Args[2], st)
				st = q.st
				k := x.term(st, q.v)
				x.safe(st, "make: length exceeds capacity", mkLe(n, k), c.Pos())
				x.safe(st, "make: capacity too large", mkLe(k, mkInt(maxAlloc)), c.Pos())
			}
			content := mkRep(sortOf(t), n, zeroTerm(u.Elem()))
			if content.op == "app" && content.name == "rep" {
				st.addFact(mkEq(mkLen(content), n), false)
			}
			sv := x.newSlice(st, content)
			sv.ln = n
			return st, []Val{sv}
		}
		panic(unsupported(c.Pos(), "make of %s", t))
	case "append":
		return x.appendCall(c, st)
	case "copy":
		d := x.evalE(c.Args[0], st)
		s := x.evalE(c.Args[1], d.st)
		st = s.st
		src := x.term(st, s.v)
		dv, ok := d.v.(*SliceV)
		if !ok {
			x.oblige(st, "frame", "copy into a slice the contract does not list as mutated", tFalse, c.Pos(), nil)
			return st, []Val{newVar("copied", "Int")}
		}
		ls := mkLen(src)
		n := mkIte(x.fold(st, mkLe(ls, dv.ln)), ls, dv.ln)
		x.writeCell(st, dv.cell, c.Pos(), func(ct *Term) *Term {
			total := mkLen(ct)
			if ct.op == "app" && ct.name == "rep" {
				total = ct.args[0] // make has checked that it is not negative
			}
			tail := mkEmpty(ct.sort)
			if x.fold(st, mkEq(mkAdd(dv.off, n), total)) != tTrue {
				tail = mkSubSeq(ct, mkAdd(dv.off, n), mkLen(ct))
			}
			return catOf(ct.sort, append(append(pieces(mkSubSeq(ct, mkI(0), dv.off)), pieces(mkSubSeq(src, mkI(0), n))...), pieces(tail)...))
		})
		// copying never changes the length of the destination
		st.addFact(mkEq(mkLen(st.cells[dv.cell].content), mkLen(x.cellLen(dv, d.st))), false)
		return st, []Val{n}
	case "delete":
		m := x.typeOf(c.Args[0]).Underlying().(*types.Map)
		k := x.evalE(c.Args[1], st)
		st = k.st
		kt := x.term(st, x.conv(st, k.v, x.typeOf(c.Args[1]), m.Key()))
		return x.updateMap(c.Args[0], st, c.Pos(), func(t *Term) *Term { return mkMDel(t, kt) }), nil
	case "recover":
		t := x.panicVal
		if t == nil {
			t = tNil
		}
		x.recovered = true
		x.panicVal = tNil
		return st, []Val{t}
	case "panic":
		x.safe(st, "panic", tFalse, c.Pos())
		return nil, nil
	case "min", "max":
		r := x.evalE(c.Args[0], st)
		st = r.st
		t := x.term(st, r.v)
		for _, a := range c.Args[1:] {
			q := x.evalE(a, st)
			st = q.st
			u := x.term(st, q.v)
			cond := mkLe(t, u)
			if name == "max" {
				cond = mkLe(u, t)
			}
			t = mkIte(x.fold(st, cond), t, u)
		}
		return st, []Val{t}
	}
	panic(unsupported(c.Pos(), "builtin %s", name))
}

func (x *Exec) cellLen(dv *SliceV, st *State) *Term { return st.cells[dv.cell].content }

func (x *Exec) appendCall(c *ast.CallExpr, st *State) (*State, []Val) {
	b := x.evalE(c.Args[0], st)
	st = b.st
	t := x.typeOf(c)
	srt := sortOf(t)
	et := t.Underlying().(*types.Slice).Elem()
	var ps []*Term
	for _, a := range c.Args[1:] {
		r := x.evalE(a, st)
		st = r.st
		if c.Ellipsis.IsValid() {
			ps = append(ps, pieces(x.term(st, r.v))...)
			continue
		}
		v := x.conv(st, r.v, x.typeOf(a), et)
		x.checkNonNil(st, et, v, a.Pos(), "slice")
		ps = append(ps, mkUnit(srt, x.capture(st, v)))
	}
	switch w := plain(b.v).(type) {
	case *Term:
		if w.sort == "U" {
			w = mkEmpty(srt)
		}
		content := catOf(srt, append(pieces(w), ps...))
		sv := x.newSlice(st, content)
		if w.op != "lit" {
			st.updCell(sv.cell, func(c *Cell) { c.shared = "" })
			x.v.assumption("append to a slice received as a value is treated as a copy (storage beyond its length is not shared)")
		}
		return st, []Val{sv}
	case *SliceV:
		cl := st.cells[w.cell]
		if cl.used || cl.shared != "" {
			panic(unsupported(c.Pos(), "append to a slice whose storage may be shared"))
		}
		if x.fold(st, mkEq(mkAdd(w.off, w.ln), mkLen(cl.content))) != tTrue {
			panic(unsupported(c.Pos(), "append to part of a slice"))
		}
		content := catOf(srt, append(pieces(x.term(st, w)), ps...))
		st.updCell(w.cell, func(c *Cell) { c.used = true })
		sv := x.newSlice(st, content)
		st.updCell(sv.cell, func(c *Cell) { c.parent = w.cell })
		return st, []Val{sv}
	}
	panic(unsupported(c.Pos(), "append"))
}

// models of library functions that a contract cannot state ----------------------------

type model func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val)

var models map[string]model

func init() {
	models = map[string]model{
		"fmt.Fprintf": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			f := x.sprintf(st, x.term(st, args[1]), variadic, vt)
			return x.writeTo(st, c, x.term(st, args[0]), f)
		},
		"fmt.Fprintln": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			return x.writeTo(st, c, x.term(st, args[0]), mkCat(x.sprint(st, variadic, vt, " "), mkLit("\n")))
		},
		"io.WriteString": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			return x.writeTo(st, c, x.term(st, args[0]), x.term(st, args[1]))
		},
		"fmt.Sprintf": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			return st, []Val{x.sprintf(st, x.term(st, args[0]), variadic, vt)}
		},
		"fmt.Sprint": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			if len(variadic) != 1 {
				panic(unsupported(c.Pos(), "fmt.Sprint of several values"))
			}
			return st, []Val{x.sprint(st, variadic, vt, " ")}
		},
		"bytes.IndexByte": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			s, b := x.term(st, args[0]), x.term(st, args[1])
			x.v.usedExt["bytes.IndexByte"] = true
			r := newVar("index", "Int")
			st.addFact(mkLe(mkI(-1), r), false)
			st.addFact(mkLt(r, mkLen(s)), false)
			if s.op == "lit" && len(s.name) <= 64 {
				var alts, first []*Term
				for i := 0; i < len(s.name); i++ {
					h := mkEq(b, mkI(int64(s.name[i])))
					alts = append(alts, h)
					first = append(first, mkImp(mkEq(r, mkI(int64(i))), h))
				}
				st.addFact(mk("eq", "", "Bool", mkLe(mkI(0), r), mkOr(alts...)), false)
				st.addFact(mkAnd(first...), false)
				return st, []Val{r}
			}
			st.addFact(mkImp(mkLe(mkI(0), r), mkEq(mkAt(s, r), b)), false)
			k := boundVar("Int")
			st.addFact(mkForall([]*Term{k}, mkImp(mkAnd(mkLe(mkI(0), k), mkLt(k, mkIte(mkLt(r, mkI(0)), mkLen(s), r))), mkNot(mkEq(mkAt(s, k), b)))), false)
			return st, []Val{r}
		},
		"math.Abs": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			a := x.term(st, args[0])
			x.v.usedExt["math.Abs"] = true
			if a.op == "app" && a.name == "i2f" {
				// rounding is symmetric
				n := a.args[0]
				return st, []Val{mkI2F(mkIte(mkLe(mkI(0), n), n, mkSub(mkI(0), n)))}
			}
			return st, []Val{mkApp("fabs", "F", a)}
		},
		"errors.New": func(x *Exec, c *ast.CallExpr, args, variadic []Val, vt []types.Type, st *State) (*State, []Val) {
			o := newAlloc("err")
			return st, []Val{o}
		},
	}
}

// writeTo appends to the ghost content of a writer.
func (x *Exec) writeTo(st *State, c *ast.CallExpr, w, s *Term) (*State, []Val) {
	name := "g_buf"
	if se, ok := ast.Unparen(c.Args[0]).(*ast.SelectorExpr); ok {
		// the error report has a ghost of its own: it is a file of its own
		if s, ok := x.info().Selections[se]; ok && x.v.cs.logField[x.v.fieldKey(s.Recv(), s.Obj().(*types.Var))] {
			name = "g_log"
			x.v.assumption("the error report is not the same file as another report")
		}
		if id, ok := se.X.(*ast.Ident); ok && (se.Sel.Name == "Stderr" || se.Sel.Name == "Stdout") {
			if p, ok := x.info().Uses[id].(*types.PkgName); ok && p.Imported().Path() == "os" {
				name = "g_tty"
				x.v.assumption("standard output and standard error are not reports")
			}
		}
	}
	return x.writeComp(st, name, w, s)
}

// stdout is the standard output
func (x *Exec) stdout() *Term {
	x.v.assumption("standard output and standard error are not reports")
	return mkApp("stdout", "U")
}

func (x *Exec) writeComp(st *State, name string, w, s *Term) (*State, []Val) {
	comp := x.v.comp(name, "Seq_B")
	h := x.heapGet(st, comp)
	st.heap[comp] = mkStore(h, w, mkCat(mkSelect(h, w), s))
	x.v.usedExt["fmt printing (appends the formatted text to the writer)"] = true
	n := newVar("n", "Int")
	return st, []Val{n, newVar("werr", "U")}
}

// showTerm is the %v rendering of a value
func showTerm(t *Term, ty types.Type, verb byte) *Term {
	if ty != nil {
		if b, ok := ty.Underlying().(*types.Basic); ok && !hasStringer(ty) {
			switch {
			case b.Info()&types.IsString != 0 && (verb == 'v' || verb == 's'):
				return t
			case b.Info()&types.IsInteger != 0 && (verb == 'v' || verb == 'd'):
				return mkApp("itoa", "Seq_B", t)
			case b.Info()&types.IsFloat != 0 && verb == 'v':
				return mkApp("ftoa", "Seq_B", t)
			}
		}
	}
	n := "show"
	if ty != nil {
		n = "show_" + string(verb) + "_" + sanitize(typeKey(ty))
	}
	return mkApp(n, "Seq_B", t)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" {
			return true
		}
	}
	return false
}

func (x *Exec) showVal(st *State, v Val, ty types.Type, verb byte) *Term {
	if hasStringer(ty) && (verb == 'v' || verb == 's') {
		// the method is called
		var fn *types.Func
		ms := types.NewMethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if n := ms.At(i).Obj().Name(); n == "Error" || n == "String" {
				fn = ms.At(i).Obj().(*types.Func)
				break
			}
		}
		key := funcKey(fn, x.v.p.pkg)
		con := x.v.cs.m[key]
		if con == nil || len(con.modifies) > 0 {
			panic(unsup{"formatting a value through its String method", token.NoPos})
		}
		if types.IsInterface(ty) {
			x.derefCheck(st, x.term(st, v), ty, token.NoPos)
		}
		s2, rs := x.applyContract(con, fn, fn.Type().(*types.Signature), key, []Val{v}, st, token.NoPos)
		if s2 != st || len(rs) != 1 {
			panic(unsup{"formatting a value through its String method", token.NoPos})
		}
		return x.term(st, rs[0])
	}
	return showTerm(x.term(st, v), ty, verb)
}

func (x *Exec) sprint(st *State, vs []Val, vt []types.Type, sep string) *Term {
	r := mkEmpty("Seq_B")
	for i, v := range vs {
		if i > 0 {
			r = mkCat(r, mkLit(sep))
		}
		r = mkCat(r, x.showVal(st, v, vt[i], 'v'))
	}
	return r
}

func (x *Exec) sprintf(st *State, f *Term, vs []Val, vt []types.Type) *Term {
	if f.op == "lit" {
		if r := formatPieces(f.name, len(vs), func(i int, verb byte) *Term { return x.showVal(st, vs[i], vt[i], verb) }); r != nil {
			return r
		}
	}
	if f.op == "ite" {
		return mkIte(f.args[0], x.sprintf(st, f.args[1], vs, vt), x.sprintf(st, f.args[2], vs, vt))
	}
	as := []*Term{f}
	for i, v := range vs {
		as = append(as, mkBox(vt[i], x.term(st, v)))
	}
	return mkApp(fmt.Sprintf("sprintf%d", len(vs)), "Seq_B", as...)
}

func formatPieces(f string, n int, arg func(i int, verb byte) *Term) *Term {
	r := mkEmpty("Seq_B")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = mkCat(r, mkLit(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			r = mkCat(r, mkLit("%"))
		case 's', 'd', 'v':
			if k >= n {
				return nil
			}
			r = mkCat(r, arg(k, f[i]))
			k++
		default:
			return nil
		}
	}
	if k != n {
		return nil
	}
	return r
}

var _ = constant.Int

// sortSlice sorts a local slice of numbers: in ascending order when that is what less asks
// for, otherwise nothing is known of the order.
func (x *Exec) sortSlice(c *ast.CallExpr, key string, st *State) *State {
	r := x.evalE(c.Args[0], st)
	st = r.st
	w, ok := plain(r.v).(*SliceV)
	if !ok {
		panic(unsupported(c.Pos(), "sorting a slice that is not a local variable"))
	}
	s := x.term(st, w)
	asc := len(c.Args) == 1
	if !asc {
		fl, ok := ast.Unparen(c.Args[1]).(*ast.FuncLit)
		if !ok || len(fl.Body.List) != 1 {
			panic(unsupported(c.Pos(), "sorting by anything but a literal comparison"))
		}
		ret, ok := fl.Body.List[0].(*ast.ReturnStmt)
		if !ok || len(ret.Results) != 1 {
			panic(unsupported(c.Pos(), "sorting by anything but a literal comparison"))
		}
		q := st.clone()
		var is []*Term
		for _, f := range fl.Type.Params.List {
			for _, n := range f.Names {
				i := newVar(n.Name, "Int")
				q.addFact(mkLe(mkI(0), i), false)
				q.addFact(mkLt(i, mkLen(s)), false)
				q.vars[x.info().Defs[n].(*types.Var)] = i
				is = append(is, i)
			}
		}
		if len(is) != 2 {
			panic(unsupported(c.Pos(), "sorting by anything but a comparison of two"))
		}
		rr := x.evalE(ret.Results[0], q)
		asc = x.term(rr.st, rr.v) == mkLt(mkAt(s, is[0]), mkAt(s, is[1]))
	}
	fn := x.v.p.byKey["sp_sorted"]
	nv := newVar("sorted", s.sort)
	if asc && fn != nil && sortOf(fn.Type().(*types.Signature).Results().At(0).Type()) == s.sort && intKind(x.typeOf(c.Args[0]).Underlying().(*types.Slice).Elem()) == "int64" {
		nv = x.v.applySpec(fn, []*Term{s}, nil)
	}
	x.v.usedExt[key] = true
	x.writeCell(st, w.cell, c.Pos(), func(ct *Term) *Term {
		if w.off == mkI(0) && w.ln == mkLen(ct) {
			return nv
		}
		return catOf(ct.sort, append(append(pieces(mkSubSeq(ct, mkI(0), w.off)), pieces(nv)...), pieces(mkSubSeq(ct, mkAdd(w.off, w.ln), mkLen(ct)))...))
	})
	st.addFact(mkEq(mkLen(nv), mkLen(s)), false)
	return st
}
