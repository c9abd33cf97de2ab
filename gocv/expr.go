package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type eres struct {
	st *State
	v  Val
}

// evalE evaluates a code expression; the state may be replaced (calls, merges).
func (x *Exec) evalE(e ast.Expr, st *State) eres {
	if tv, ok := x.info().Types[e]; ok && tv.Value != nil {
		if t, ok := constTerm(tv); ok {
			return eres{st, t}
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.evalE(e.X, st)
	case *ast.Ident:
		return eres{st, x.identVal(e, st)}
	case *ast.BasicLit:
	case *ast.FuncLit:
		return eres{st, &FuncV{e}}
	case *ast.UnaryExpr:
		return x.unary(e, st)
	case *ast.BinaryExpr:
		return x.binary(e, st)
	case *ast.CallExpr:
		nst, rv := x.call(e, st)
		if nst == nil {
			panic(unsupported(e.Pos(), "call never returns"))
		}
		if len(rv) == 0 {
			return eres{nst, mkI(0)}
		}
		return eres{nst, rv[0]}
	case *ast.SelectorExpr:
		return x.selector(e, st)
	case *ast.StarExpr:
		r := x.evalE(e.X, st)
		obj := x.term(r.st, r.v)
		x.derefCheck(r.st, obj, x.typeOf(e.X), e.Pos())
		t := x.typeOf(e)
		if _, ok := t.Underlying().(*types.Struct); ok {
			panic(unsupported(e.Pos(), "copy of a struct"))
		}
		c := x.v.comp("deref."+sanitize(typeKey(t)), sortOf(t))
		return eres{r.st, mkSelect(x.heapGet(r.st, c), obj)}
	case *ast.IndexExpr:
		r := x.evalE(e.X, st)
		k := x.evalE(e.Index, r.st)
		st = k.st
		bt := x.typeOf(e.X)
		if m, ok := bt.Underlying().(*types.Map); ok {
			mm := x.term(st, r.v)
			kk := x.term(st, x.conv(st, k.v, x.typeOf(e.Index), m.Key()))
			got := x.v.markKeyed(m.Elem(), mkMGet(mm, kk))
			has := mkMHas(mm, kk)
			x.assumeNonNil(st, m.Elem(), got, has)
			if got.sort == "Int" {
				if kd := intKind(m.Elem()); kd != "" && kd != "uint8" {
					k := wrapKinds[kd]
					st.addFact(mkAnd(mkLe(mkInt(k[0]), got), mkLe(got, mkInt(k[1]))), false)
				}
			}
			if x.v.cs.onlyTrue[typeKey(bt)] {
				return eres{st, has}
			}
			return eres{st, mkIte(has, got, zeroTerm(m.Elem()))}
		}
		i := x.term(st, k.v)
		var ln *Term
		sv, isSV := r.v.(*SliceV)
		if isSV {
			ln = sv.ln
		} else {
			ln = mkLen(x.term(st, r.v))
		}
		x.safe(st, "index out of range", mkAnd(mkLe(mkI(0), i), mkLt(i, ln)), e.Pos())
		var el *Term
		if isSV {
			el = mkAt(st.cells[sv.cell].content, mkAdd(sv.off, i))
		} else {
			el = mkAt(x.term(st, r.v), i)
		}
		x.elemFacts(st, bt, el)
		return eres{st, el}
	case *ast.SliceExpr:
		return x.sliceExpr(e, st)
	case *ast.CompositeLit:
		return x.composite(e, st, false)
	case *ast.TypeAssertExpr:
		r := x.evalE(e.X, st)
		u := x.term(r.st, r.v)
		t := x.typeOf(e)
		if types.IsInterface(t) {
			panic(unsupported(e.Pos(), "assertion to an interface type"))
		}
		x.safe(r.st, "type assertion", mkEq(mkTyp(u), mkI(tagOf(t))), e.Pos())
		return eres{r.st, mkUnbox(t, u)}
	}
	panic(unsupported(e.Pos(), "expression %T", e))
}

// elemFacts: typing facts of an element read from a sequence
func (x *Exec) elemFacts(st *State, bt types.Type, el *Term) {
	var et types.Type
	switch u := bt.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	default:
		return
	}
	if k := intKind(et); k != "" && k != "uint8" && el.op == "app" {
		w := wrapKinds[k]
		st.addFact(mkAnd(mkLe(mkInt(w[0]), el), mkLe(el, mkInt(w[1]))), false)
	}
	x.assumeNonNil(st, et, el, tTrue)
}

func (x *Exec) identVal(e *ast.Ident, st *State) Val {
	o := x.info().Uses[e]
	if o == nil {
		o = x.info().Defs[e]
	}
	switch o := o.(type) {
	case *types.Nil:
		return tNil
	case *types.Var:
		if v, ok := st.vars[o]; ok {
			return v
		}
		if t, ok := x.v.globalVal(o, x.heapFn(st)); ok {
			if isSeq(t.sort) || isMap(t.sort) {
				return t
			}
			return t
		}
	case *types.Func:
		// a function as a value: a constant, which has no contract when it is called
		return mkVar("func_"+sanitize(o.FullName()), "U")
	}
	panic(unsupported(e.Pos(), "identifier %s", e.Name))
}

func (x *Exec) selector(e *ast.SelectorExpr, st *State) eres {
	s, ok := x.info().Selections[e]
	if !ok {
		if o, ok := x.info().Uses[e.Sel].(*types.Var); ok {
			if t, ok := x.v.globalVal(o, x.heapFn(st)); ok {
				return eres{st, t}
			}
		}
		panic(unsupported(e.Pos(), "selector %s", e.Sel.Name))
	}
	if s.Kind() != types.FieldVal {
		panic(unsupported(e.Pos(), "method value"))
	}
	r := x.evalE(e.X, st)
	st = r.st
	o := x.term(st, r.v)
	t := x.walkFields(st, o, x.typeOf(e.X), s.Index(), e.Pos())
	if isSeq(t.sort) {
		for id, c := range st.cells {
			if c.capKey != "" && strings.HasSuffix(c.capKey, "."+e.Sel.Name) {
				st.updCell(id, func(c *Cell) { c.loads++ })
			}
		}
	}
	if n := len(s.Index()); n == 1 {
		base := x.typeOf(e.X)
		if p, ok := base.Underlying().(*types.Pointer); ok {
			base = p.Elem()
		}
		if key := x.v.fieldKey(base, s.Obj().(*types.Var)); x.v.cs.nilField[key] {
			return eres{st, &NilV{t, mkSelect(x.heapGet(st, x.v.nilComp(key)), o)}}
		}
	}
	return eres{st, t}
}

func (x *Exec) walkFields(st *State, obj *Term, rt types.Type, idx []int, pos token.Pos) *Term {
	for _, i := range idx {
		base := rt
		if p, ok := base.Underlying().(*types.Pointer); ok {
			base = p.Elem()
			x.derefCheck(st, obj, rt, pos)
		}
		f := base.Underlying().(*types.Struct).Field(i)
		obj = x.v.readField(rt, i, obj, x.heapFn(st))
		if obj.sort == "U" {
			x.assumeNonNil(st, f.Type(), obj, tTrue)
		}
		rt = f.Type()
	}
	return obj
}

func (x *Exec) unary(e *ast.UnaryExpr, st *State) eres {
	switch e.Op {
	case token.AND:
		if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
			return x.composite(cl, st, true)
		}
		if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
			if _, ok := x.typeOf(id).Underlying().(*types.Struct); ok {
				return eres{st, x.identVal(id, st)}
			}
		}
		panic(unsupported(e.Pos(), "address of a variable"))
	case token.NOT:
		r := x.evalE(e.X, st)
		return eres{r.st, mkNot(x.term(r.st, r.v))}
	case token.SUB:
		r := x.evalE(e.X, st)
		t := x.term(r.st, r.v)
		if t.sort == "F" {
			return eres{r.st, mkApp("fneg", "F", t)}
		}
		return eres{r.st, r.st.wrap(intKind(x.typeOf(e)), mkSub(mkI(0), t))}
	case token.ADD:
		return x.evalE(e.X, st)
	case token.XOR:
		r := x.evalE(e.X, st)
		t := x.term(r.st, r.v)
		k := intKind(x.typeOf(e))
		// ^x == -x-1 (signed), max-x (unsigned)
		w := wrapKinds[k]
		if w[0].Sign() == 0 {
			return eres{r.st, mkSub(mkInt(w[1]), t)}
		}
		return eres{r.st, mkSub(mkI(-1), t)}
	}
	panic(unsupported(e.Pos(), "unary %s", e.Op))
}

func (x *Exec) binary(e *ast.BinaryExpr, st *State) eres {
	if e.Op == token.LAND || e.Op == token.LOR {
		l := x.evalE(e.X, st)
		st = l.st
		a := x.fold(st, x.term(st, l.v))
		isAnd := e.Op == token.LAND
		if a == tTrue && !isAnd || a == tFalse && isAnd {
			return eres{st, a}
		}
		if a == tTrue && isAnd || a == tFalse && !isAnd {
			return x.evalE(e.Y, st)
		}
		s2 := st.clone()
		if isAnd {
			s2.addFact(a, true)
		} else {
			s2.addFact(mkNot(a), true)
		}
		base := s2.facts
		r := x.evalE(e.Y, s2)
		b := x.term(r.st, r.v)
		if sameStores(st, r.st) {
			// keep guarded facts
			var extra []*Term
			for f := r.st.facts; f != nil && f != base; f = f.next {
				extra = append(extra, f.t)
			}
			g := a
			if !isAnd {
				g = mkNot(a)
			}
			for i := len(extra) - 1; i >= 0; i-- {
				st.addFact(mkImp(g, extra[i]), false)
			}
			if isAnd {
				return eres{st, mkAnd(a, b)}
			}
			return eres{st, mkOr(a, b)}
		}
		s1 := st.clone()
		var v1 *Term
		if isAnd {
			s1.addFact(mkNot(a), true)
			v1 = tFalse
		} else {
			s1.addFact(a, true)
			v1 = tTrue
		}
		m, vs := x.merge([]*State{s1, r.st}, [][]Val{{v1}, {b}})
		return eres{m, vs[0]}
	}
	l := x.evalE(e.X, st)
	r := x.evalE(e.Y, l.st)
	st = r.st
	switch e.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		t := x.compare(st, e.Op, l.v, x.typeOf(e.X), r.v, x.typeOf(e.Y), e.Pos())
		return eres{st, t}
	}
	return eres{st, x.arithT(st, e.Op, x.term(st, l.v), x.term(st, r.v), x.typeOf(e), e.Pos())}
}

func sameStores(a, b *State) bool {
	if len(a.heap) != len(b.heap) {
		// lazily created components do not count, changed ones do
		for k, v := range b.heap {
			if w, ok := a.heap[k]; ok && w != v || !ok {
				return false
			}
		}
	}
	for k, v := range b.heap {
		if a.heap[k] != v {
			return false
		}
	}
	for k, v := range b.vars {
		if w, ok := a.vars[k]; ok && !sameVal(v, w) {
			return false
		}
	}
	for k, c := range b.cells {
		if d, ok := a.cells[k]; ok && d != c {
			return false
		} else if !ok {
			return false
		}
	}
	return true
}

func (x *Exec) compare(st *State, op token.Token, lv Val, lt types.Type, rv Val, rt types.Type, pos token.Pos) *Term {
	isNil := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Kind() == types.UntypedNil
	}
	if isNil(rt) || isNil(lt) {
		v, t := lv, lt
		if isNil(lt) {
			v, t = rv, rt
		}
		var r *Term
		if _, ok := v.(*FuncV); ok {
			r = tFalse
		} else {
			tm := x.term(st, v)
			if tm.sort != "U" {
				// nil-ness of a slice or map: an uninterpreted predicate that implies emptiness
				r = x.nilness(st, v, tm)
			} else {
				r = mkEq(tm, tNil)
			}
		}
		_ = t
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	}
	if types.IsInterface(lt) && !types.IsInterface(rt) {
		rv = x.conv(st, rv, rt, lt)
	} else if types.IsInterface(rt) && !types.IsInterface(lt) {
		lv = x.conv(st, lv, lt, rt)
	}
	a, b := x.term(st, lv), x.term(st, rv)
	switch op {
	case token.EQL, token.NEQ:
		if a.sort == "U" {
			for _, t := range []types.Type{lt, rt} {
				if p, ok := t.Underlying().(*types.Pointer); ok && x.v.immut[typeKey(p.Elem())] {
					panic(unsupported(pos, "identity comparison of immutable-type pointers"))
				}
			}
			if _, ok := lt.Underlying().(*types.Struct); ok {
				panic(unsupported(pos, "struct comparison"))
			}
		}
		var r *Term
		if a.sort == "F" {
			r = mkApp("feq", "Bool", a, b)
			if a.op == "app" && a.name == "i2f" && b.op == "app" && b.name == "i2f" {
				r = mkEq(a.args[0], b.args[0])
			}
		} else {
			r = mkEq(a, b)
		}
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	}
	if isSeq(a.sort) {
		n := "strlt"
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		r := mkApp(n, "Bool", a, b)
		if op == token.LEQ || op == token.GEQ {
			return mkNot(r)
		}
		return r
	}
	if a.sort == "F" {
		switch op {
		case token.LSS:
			return mkApp("flt", "Bool", a, b)
		case token.LEQ:
			return mkApp("fle", "Bool", a, b)
		case token.GTR:
			return mkApp("flt", "Bool", b, a)
		}
		return mkApp("fle", "Bool", b, a)
	}
	switch op {
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	}
	return mkLe(b, a)
}

// nilness of slice/map values: only known for what the code can observe
func (x *Exec) nilness(st *State, v Val, tm *Term) *Term {
	if n, ok := v.(*NilV); ok {
		return n.isnil
	}
	// unknown, but a slice with elements is not nil
	p := newVar("isnil", "Bool")
	if isSeq(tm.sort) {
		st.addFact(mkImp(p, mkEq(mkLen(tm), mkI(0))), false)
	} else if isMap(tm.sort) {
		st.addFact(mkImp(p, mkEq(mkLen0(tm), mkI(0))), false)
	}
	return p
}

func (x *Exec) arithT(st *State, op token.Token, a, b *Term, t types.Type, pos token.Pos) *Term {
	kind := intKind(t)
	switch op {
	case token.QUO, token.REM:
		if a.sort == "Int" {
			x.safe(st, "division by zero", mkNot(mkEq(b, mkI(0))), pos)
			// sign information from the state
			la, _ := st.bounds(a)
			lb, _ := st.bounds(b)
			if la != nil && la.Sign() >= 0 && lb != nil && lb.Sign() > 0 {
				if op == token.QUO {
					return mkDiv(a, b)
				}
				return mkMod(a, b)
			}
		}
	case token.SHL, token.SHR:
		x.safe(st, "negative shift", mkLe(mkI(0), b), pos)
		_, hb := st.bounds(b)
		if op == token.SHR {
			la, _ := st.bounds(a)
			if la == nil || la.Sign() < 0 {
				if b.op != "int" {
					panic(unsupported(pos, "right shift of a possibly negative value"))
				}
			}
		}
		_ = hb
	case token.AND_NOT:
		panic(unsupported(pos, "&^"))
	case token.AND, token.OR, token.XOR:
		k := wrapKinds[kind]
		if a.sort == "Int" && k != nilKind && k[0] != nil && k[0].Sign() < 0 {
			la, _ := st.bounds(a)
			lb, _ := st.bounds(b)
			if la == nil || lb == nil || la.Sign() < 0 || lb.Sign() < 0 {
				r := mkApp("sbit_"+op.String(), "Int", a, b)
				_ = r
				name := map[token.Token]string{token.AND: "sband", token.OR: "sbor", token.XOR: "sbxor"}[op]
				return mkApp(name, "Int", a, b)
			}
		}
	}
	r := arithOp(op, a, b, kind)
	if r == nil {
		panic(unsupported(pos, "operator %s", op))
	}
	if r.sort == "Int" {
		switch op {
		case token.QUO, token.REM, token.SHR, token.AND:
			if op == token.QUO && wrapKinds[kind][0].Sign() < 0 {
				return st.wrap(kind, r)
			}
			return r
		case token.OR, token.XOR:
			return r
		}
		return st.wrap(kind, r)
	}
	return r
}

var nilKind [2]*big.Int

func (x *Exec) sliceExpr(e *ast.SliceExpr, st *State) eres {
	r := x.evalE(e.X, st)
	st = r.st
	lo, hi := mkI(0), (*Term)(nil)
	if e.Low != nil {
		q := x.evalE(e.Low, st)
		st = q.st
		lo = x.term(st, q.v)
	}
	if e.High != nil {
		q := x.evalE(e.High, st)
		st = q.st
		hi = x.term(st, q.v)
	}
	if e.Max != nil {
		panic(unsupported(e.Pos(), "three-index slice"))
	}
	switch v := plain(r.v).(type) {
	case *SliceV:
		if hi == nil {
			hi = v.ln
		}
		// reslicing beyond the length (up to the capacity) is not modelled: the bound checked is the length
		x.safe(st, "slice bounds out of range", mkAnd(mkLe(mkI(0), lo), mkLe(lo, hi), mkLe(hi, v.ln)), e.Pos())
		if lo.op == "int" && lo.num.Sign() == 0 && hi == v.ln {
			return eres{st, v}
		}
		return eres{st, &SliceV{v.cell, mkAdd(v.off, lo), mkSub(hi, lo)}}
	case *Term:
		if hi == nil {
			hi = mkLen(v)
		}
		x.safe(st, "slice bounds out of range", mkAnd(mkLe(mkI(0), lo), mkLe(lo, hi), mkLe(hi, mkLen(v))), e.Pos())
		return eres{st, mkSubSeq(v, lo, hi)}
	}
	panic(unsupported(e.Pos(), "slice of %T", r.v))
}

type nilStore struct {
	e ast.Expr
	v Val
}

func (x *Exec) composite(e *ast.CompositeLit, st *State, addr bool) eres {
	t := x.typeOf(e)
	stored := map[int]nilStore{}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		srt := sortOf(t)
		var ps []*Term
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported(e.Pos(), "keyed slice literal"))
			}
			r := x.evalE(el, st)
			st = r.st
			v := x.conv(st, r.v, x.typeOf(el), et)
			x.checkNonNil(st, et, v, el.Pos(), "slice")
			ps = append(ps, mkUnit(srt, x.capture(st, v)))
		}
		return eres{st, x.newSlice(st, catOf(srt, ps))}
	case *types.Map:
		m := mkMEmpty(sortOf(t))
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := x.evalE(kv.Key, st)
			v := x.evalE(kv.Value, k.st)
			st = v.st
			vv := x.conv(st, v.v, x.typeOf(kv.Value), u.Elem())
			x.checkNonNil(st, u.Elem(), vv, kv.Pos(), "map")
			if x.v.cs.onlyTrue[typeKey(t)] {
				x.safe(st, "only true is stored in a "+typeKey(t), x.term(st, vv), kv.Pos())
			}
			kt, vt := x.term(st, x.conv(st, k.v, x.typeOf(kv.Key), u.Key())), x.capture(st, vv)
			x.putKey(st, u.Elem(), vt, kt, kv.Pos())
			m = mkMPut(m, kt, vt)
		}
		return eres{st, &MapV{x.newCell(st, m)}}
	case *types.Struct:
		if !addr {
			if u.NumFields() == 0 || len(e.Elts) == 0 {
				return eres{st, x.zeroVal(st, t, e.Pos())}
			}
			panic(unsupported(e.Pos(), "struct value literal"))
		}
		vals := make([]*Term, u.NumFields())
		for i, el := range e.Elts {
			fi := i
			ve := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				ve = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fi = j
					}
				}
			}
			r := x.evalE(ve, st)
			st = r.st
			ft := u.Field(fi).Type()
			v := x.conv(st, r.v, x.typeOf(ve), ft)
			x.checkNonNil(st, ft, v, ve.Pos(), "field "+x.v.fieldKey(t, u.Field(fi)))
			vals[fi] = x.capture(st, v)
			stored[fi] = nilStore{ve, r.v}
		}
		for i := range vals {
			if vals[i] == nil {
				vals[i] = zeroTerm(u.Field(i).Type())
			}
		}
		if x.v.immut[typeKey(t)] {
			return eres{st, x.build(st, t, vals, e.Pos())}
		}
		o := newAlloc("new")
		allocTag[o] = tagOf(types.NewPointer(t))
		for i := range vals {
			key := x.v.fieldKey(t, u.Field(i))
			x.setField(st, key, u.Field(i), o, vals[i])
			if w, ok := stored[i]; ok {
				x.setNil(st, key, o, w.e, w.v)
			} else if x.v.cs.nilField[key] {
				x.setNil(st, key, o, ast.NewIdent("nil"), nil)
			}
		}
		if inv := x.typeInv(t, o); inv != nil {
			x.safe(st, "invariant of "+typeKey(t), inv, e.Pos())
		}
		return eres{st, o}
	}
	panic(unsupported(e.Pos(), "composite literal of %s", t))
}

var _ = constant.MakeInt64
