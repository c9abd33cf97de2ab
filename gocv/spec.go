package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// SpecDef is a specification function: executable Go on one side, an SMT
// symbol with a definition that is unfolded on ground applications on the other.
type SpecDef struct {
	fn       *types.Func
	name     string
	formals  []*Term
	comps    []string // heap components read, passed as extra arguments
	cterms   []*Term
	body     *Term
	rec      bool
	uninterp bool
	con      *Contract
	building bool
	result   string
	fuel     int
}

// Verifier holds everything shared between function verifications.
type Verifier struct {
	usedSpec   map[string]bool // specification functions with a contract that some query used
	p          *Prog
	cs         *Contracts
	specs      map[*types.Func]*SpecDef
	specName   map[string]*SpecDef
	compSort   map[string]string // heap component -> array sort
	final      map[string]bool   // field key -> never assigned outside composite literals
	nonnil     map[string]bool   // type keys whose values in containers, fields and parameters are non-nil
	specSCC    map[*types.Func]int
	scc        map[*types.Func]int
	specComps  map[*types.Func][]string
	immut      map[string]bool
	errs       []string
	usedExt    map[string]bool
	curUsed    map[string]bool
	lemmaBusy  map[string]bool
	locals     map[string][]localDecl
	today      map[*types.Func]map[localDecl]bool
	compRange  map[string][2]*big.Int
	importName map[string]*types.Package
	sccOf      map[*types.Func]int
	sccRec     map[int]bool
	inlined    map[string]bool
	assume     map[string]bool
}

type SpecEnv struct {
	v     *Verifier
	vars  map[types.Object]*Term
	look  func(types.Object) (*Term, bool)
	heap  func(comp string) *Term
	old   *SpecEnv
	pre   *SpecEnv
	seen  func() *Term
	fresh func(t *Term) *Term
	st    *State
	nils  map[types.Object]func() *Term
}

func (e *SpecEnv) child() *SpecEnv {
	n := *e
	n.vars = map[types.Object]*Term{}
	n.nils = map[types.Object]func() *Term{}
	for k, f := range e.nils {
		n.nils[k] = f
	}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (v *Verifier) comp(name, valSort string) string {
	if _, ok := v.compSort[name]; !ok {
		v.compSort[name] = arrSort("U", valSort)
	}
	return name
}

func constTerm(tv types.TypeAndValue) (*Term, bool) {
	if tv.Value == nil {
		return nil, false
	}
	t := tv.Type
	switch tv.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(tv.Value)), true
	case constant.String:
		return mkLit(constant.StringVal(tv.Value)), true
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if iv := constant.ToInt(tv.Value); iv.Kind() == constant.Int {
				return mkI2F(mkInt(bigConst(iv))), true
			}
			return mkApp("fconst_"+sanitize(tv.Value.ExactString()), "F"), true
		}
		iv := constant.ToInt(tv.Value)
		if iv.Kind() == constant.Int {
			return mkInt(bigConst(iv)), true
		}
	}
	return nil, false
}

func bigConst(v constant.Value) *big.Int {
	n, ok := new(big.Int).SetString(v.ExactString(), 10)
	if !ok {
		panic(bug("constant %s", v))
	}
	return n
}

func (v *Verifier) fieldKey(st types.Type, f *types.Var) string {
	if p, ok := st.(*types.Pointer); ok {
		st = p.Elem()
	}
	n := ""
	if nt, ok := st.(*types.Named); ok {
		n = nt.Obj().Name()
		if nt.Obj().Pkg() != v.p.pkg && nt.Obj().Pkg().Path() != v.p.pkg.Path() {
			n = nt.Obj().Pkg().Path() + "." + n
		}
	}
	return n + "." + f.Name()
}

// readField reads obj.f in a heap
// fieldRange is the range of an integer field of kind k.
func (v *Verifier) fieldRange(key, k string) [2]*big.Int {
	if v.cs.positive[key] {
		return [2]*big.Int{big.NewInt(1), wrapKinds[k][1]}
	}
	return wrapKinds[k]
}

func (v *Verifier) readField(st types.Type, idx int, obj *Term, heap func(string) *Term) *Term {
	base := st
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	su := base.Underlying().(*types.Struct)
	f := su.Field(idx)
	fs := sortOf(f.Type())
	tk := typeKey(base)
	if v.immut[tk] {
		return reApp(fmt.Sprintf("sel_%s_%d", sanitize(tk), idx), fs, []*Term{obj})
	}
	key := v.fieldKey(base, f)
	if v.final[key] {
		n := "fin_" + sanitize(key)
		if r, ok := finVals[finKey{obj, key}]; ok {
			return r
		}
		if obj.op == "ite" {
			return mkIte(obj.args[0], v.readField(st, idx, obj.args[1], heap), v.readField(st, idx, obj.args[2], heap))
		}
		t := mkApp(n, fs, obj)
		if k := intKind(f.Type()); k != "" {
			funRange[n] = v.fieldRange(key, k)
		}
		return t
	}
	c := v.comp(key, fs)
	t := mkSelect(heap(c), obj)
	if k := intKind(f.Type()); k != "" {
		markRange(t, v.fieldRange(key, k))
	}
	return t
}

// markRange records the values the reads in t can have.
func markRange(t *Term, r [2]*big.Int) {
	delete(intervalCache, t.id)
	switch t.op {
	case "select":
		selRange[t] = r
	case "ite":
		markRange(t.args[1], r)
		markRange(t.args[2], r)
	}
}

// keyedFact: what is known of the key of a value read from a map, by the value
var keyedFact = map[*Term]*Term{}

// markKeyed notes that t was read from a map whose values are of type et: what they
// are filed under is their key.
func (v *Verifier) markKeyed(et types.Type, t *Term) *Term {
	p, ok := et.Underlying().(*types.Pointer)
	if !ok {
		return t
	}
	n, ok := v.cs.keyed[typeKey(p.Elem())]
	if !ok {
		return t
	}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t.op == "ite" {
			mark(t.args[1])
			mark(t.args[2])
		}
		if t.op != "app" || t.name != "mget" || keyedFact[t] != nil || !isGround(t) {
			return
		}
		keyedFact[t] = mkImp(mkMHas(t.args[0], t.args[1]), mkEq(v.keyOf(n, t), t.args[1]))
	}
	mark(t)
	return t
}

func (v *Verifier) keyOf(n string, t *Term) *Term {
	fn := v.p.pkg.Scope().Lookup(n).(*types.Func)
	return v.applySpec(fn, []*Term{t}, func(string) *Term { panic(bug("keys depend on the heap")) })
}

type finKey struct {
	obj *Term
	key string
}

// finVals: values of final fields of objects allocated by composite literals
var finVals = map[finKey]*Term{}
var selRange = map[*Term][2]*big.Int{}

func (e *SpecEnv) info() *types.Info { return e.v.p.info }

func (e *SpecEnv) typeOf(x ast.Expr) types.Type {
	t := e.info().TypeOf(x)
	if t == nil {
		panic(unsupported(x.Pos(), "no type for expression"))
	}
	return t
}

func (e *SpecEnv) ident(x *ast.Ident) *Term {
	obj := e.info().Uses[x]
	if obj == nil {
		obj = e.info().Defs[x]
	}
	if t, ok := e.vars[obj]; ok {
		return t
	}
	if e.look != nil {
		if t, ok := e.look(obj); ok {
			return t
		}
	}
	switch o := obj.(type) {
	case *types.Nil:
		t := e.typeOf(x)
		return zeroTermNil(t)
	case *types.Const:
		if t, ok := constTerm(types.TypeAndValue{Type: o.Type(), Value: o.Val()}); ok {
			return t
		}
	case *types.Var:
		if t, ok := e.v.globalVal(o, e.heap); ok {
			return t
		}
	}
	panic(unsupported(x.Pos(), "spec: unknown identifier %s", x.Name))
}

func zeroTermNil(t types.Type) *Term {
	if t == nil || t == types.Typ[types.UntypedNil] {
		return tNil
	}
	return zeroTerm(t)
}

// globalVal: value of a package-level variable
func (v *Verifier) globalVal(o *types.Var, heap func(string) *Term) (*Term, bool) {
	g := v.p.globals[o]
	name := o.Name()
	if o.Pkg() != nil && o.Pkg() != v.p.pkg && o.Pkg().Path() != v.p.pkg.Path() && g != nil {
		return mkSelect(heap(v.comp(v.globalComp(o), sortOf(o.Type()))), mkVar("globals", "U")), true
	}
	if o.Pkg() != nil && o.Pkg() != v.p.pkg && o.Pkg().Path() != v.p.pkg.Path() {
		// variable of another package (io.EOF, os.Stderr, ...)
		t := mkVar("glob_"+sanitize(o.Pkg().Path()+"."+name), sortOf(o.Type()))
		if t.sort == "U" {
			distinctU[t] = true
		}
		return t, true
	}
	if g == nil {
		return nil, false
	}
	if !g.assigned && g.init != nil {
		if t, ok := v.constInit(g.init, o); ok {
			return t, true
		}
	}
	if g.assigned || g.init == nil {
		c := v.comp("global."+name, sortOf(o.Type()))
		return mkSelect(heap(c), mkVar("globals", "U")), true
	}
	t := mkVar("glob_"+sanitize(name), sortOf(o.Type()))
	if t.sort == "U" {
		distinctU[t] = true
	}
	return t, true
}

// globalComp names the component of a package variable.
func (v *Verifier) globalComp(o types.Object) string {
	if o.Pkg() != nil && o.Pkg() != v.p.pkg {
		return "global." + sanitize(o.Pkg().Path()) + "." + o.Name()
	}
	return "global." + o.Name()
}

func (v *Verifier) constInit(e ast.Expr, o *types.Var) (*Term, bool) {
	info := v.p.info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return constTerm(tv)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return v.constInit(x.X, o)
	case *ast.CallExpr:
		if tv, ok := info.Types[x.Fun]; ok && tv.IsType() && len(x.Args) == 1 {
			return v.constInit(x.Args[0], o)
		}
		if f := calleeOf(info, x); f != nil {
			switch funcKey(f, v.p.pkg) {
			case "errors.New":
				t := mkVar("glob_"+sanitize(o.Name()), "U")
				distinctU[t] = true
				allocTag[t] = 1000000 // *errors.errorString
				return t, true
			case "regexp.MustCompile":
				if a, ok := v.constInit(x.Args[0], o); ok && a.op == "lit" {
					t := mkApp("new_regexp", "U", a)
					return t, true
				}
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if cl, ok := x.X.(*ast.CompositeLit); ok {
				tk := typeKey(info.TypeOf(cl))
				if v.immut[tk] && len(cl.Elts) == 0 {
					st := info.TypeOf(cl).Underlying().(*types.Struct)
					var as []*Term
					for i := 0; i < st.NumFields(); i++ {
						as = append(as, zeroTerm(st.Field(i).Type()))
					}
					return v.newImm(info.TypeOf(cl), as), true
				}
			}
		}
	}
	return nil, false
}

// newImm builds a value of an immutable pointer type
func (v *Verifier) newImm(t types.Type, args []*Term) *Term {
	tk := typeKey(t)
	n := "new_" + sanitize(tk)
	boxTags[n] = tagOf(types.NewPointer(t))
	return mkApp(n, "U", args...)
}

func calleeOf(info *types.Info, c *ast.CallExpr) *types.Func {
	fun := ast.Unparen(c.Fun)
	switch f := fun.(type) {
	case *ast.IndexExpr:
		fun = f.X
	case *ast.IndexListExpr:
		fun = f.X
	}
	switch f := fun.(type) {
	case *ast.Ident:
		if fn, ok := info.Uses[f].(*types.Func); ok {
			return fn
		}
	case *ast.SelectorExpr:
		if s, ok := info.Selections[f]; ok {
			if fn, ok := s.Obj().(*types.Func); ok {
				return fn
			}
			return nil
		}
		if fn, ok := info.Uses[f.Sel].(*types.Func); ok {
			return fn
		}
	}
	return nil
}

// eval translates a specification expression to a term.
func (e *SpecEnv) eval(x ast.Expr) *Term {
	if tv, ok := e.info().Types[x]; ok && tv.Value != nil {
		if t, ok := constTerm(tv); ok {
			return t
		}
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.Ident:
		return e.ident(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return mkNot(e.eval(x.X))
		case token.SUB:
			if sortOf(e.typeOf(x)) == "F" {
				return mkApp("fneg", "F", e.eval(x.X))
			}
			return e.arith(x, mkSub(mkI(0), e.eval(x.X)))
		case token.ADD:
			return e.eval(x.X)
		case token.AND:
			if cl, ok := x.X.(*ast.CompositeLit); ok {
				t := e.typeOf(cl)
				if e.v.immut[typeKey(t)] {
					st := t.Underlying().(*types.Struct)
					args := make([]*Term, st.NumFields())
					for i, el := range cl.Elts {
						if kv, ok := el.(*ast.KeyValueExpr); ok {
							for j := 0; j < st.NumFields(); j++ {
								if st.Field(j).Name() == kv.Key.(*ast.Ident).Name {
									args[j] = e.conv(e.eval(kv.Value), e.typeOf(kv.Value), st.Field(j).Type())
								}
							}
						} else {
							args[i] = e.conv(e.eval(el), e.typeOf(el), st.Field(i).Type())
						}
					}
					for i := range args {
						if args[i] == nil {
							args[i] = zeroTerm(st.Field(i).Type())
						}
					}
					return e.v.newImm(t, args)
				}
			}
		}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.CallExpr:
		return e.call(x)
	case *ast.IndexExpr:
		t := e.typeOf(x.X)
		b := e.eval(x.X)
		i := e.eval(x.Index)
		if m, ok := t.Underlying().(*types.Map); ok {
			i = e.conv(i, e.typeOf(x.Index), m.Key())
			if e.v.cs.onlyTrue[typeKey(t)] {
				return mkMHas(b, i)
			}
			return mkIte(mkMHas(b, i), e.v.markKeyed(m.Elem(), mkMGet(b, i)), zeroTerm(m.Elem()))
		}
		return mkAt(b, i)
	case *ast.SliceExpr:
		b := e.eval(x.X)
		lo, hi := mkI(0), mkLen(b)
		if x.Low != nil {
			lo = e.eval(x.Low)
		}
		if x.High != nil {
			hi = e.eval(x.High)
		}
		return mkSubSeq(b, lo, hi)
	case *ast.StarExpr:
		t := e.typeOf(x)
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return mkSelect(e.heap(e.v.comp("deref."+sanitize(typeKey(t)), sortOf(t))), e.eval(x.X))
		}
	case *ast.SelectorExpr:
		if s, ok := e.info().Selections[x]; ok && s.Kind() == types.FieldVal {
			t := e.eval(x.X)
			rt := e.typeOf(x.X)
			for _, i := range s.Index() {
				t = e.v.readField(rt, i, t, e.heap)
				base := rt
				if p, ok := base.Underlying().(*types.Pointer); ok {
					base = p.Elem()
				}
				rt = base.Underlying().(*types.Struct).Field(i).Type()
			}
			return t
		}
		if o, ok := e.info().Uses[x.Sel].(*types.Var); ok {
			if t, ok := e.v.globalVal(o, e.heap); ok {
				return t
			}
		}
	case *ast.CompositeLit:
		t := e.typeOf(x)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			var ps []*Term
			s := sortOf(t)
			for _, el := range x.Elts {
				ps = append(ps, mkUnit(s, e.conv(e.eval(el), e.typeOf(el), u.Elem())))
			}
			return catOf(s, ps)
		case *types.Map:
			m := mkMEmpty(sortOf(t))
			for _, el := range x.Elts {
				kv := el.(*ast.KeyValueExpr)
				m = mkMPut(m, e.conv(e.eval(kv.Key), e.typeOf(kv.Key), u.Key()), e.conv(e.eval(kv.Value), e.typeOf(kv.Value), u.Elem()))
			}
			return m
		}
	case *ast.TypeAssertExpr:
		u := e.eval(x.X)
		return mkUnbox(e.typeOf(x.Type), u)
	}
	panic(unsupported(x.Pos(), "spec: unsupported expression %T", x))
}

// conv converts for assignability (boxing into interfaces).
func (e *SpecEnv) conv(t *Term, from, to types.Type) *Term {
	if types.IsInterface(to) && !types.IsInterface(from) {
		if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return tNil
		}
		return mkBox(from, t)
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroTermNil(to)
	}
	return t
}

// arith: spec arithmetic is mathematical for int, machine for sized kinds
func (e *SpecEnv) arith(x ast.Expr, t *Term) *Term {
	b, ok := e.typeOf(x).Underlying().(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Int, types.UntypedInt, types.UntypedRune:
		return t
	}
	if k := intKind(e.typeOf(x)); k != "" {
		if e.st != nil {
			return e.st.wrap(k, t)
		}
		return mkWrap(k, t)
	}
	return t
}

func goQuo(a, b *Term) *Term {
	// truncated division, when signs are known it is Euclidean
	lo, _ := interval(a)
	bl, _ := interval(b)
	if lo != nil && lo.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
		return mkDiv(a, b)
	}
	if bl != nil && bl.Sign() > 0 {
		return mkIte(mkLe(mkI(0), a), mkDiv(a, b), mkSub(mkI(0), mkDiv(mkSub(mkI(0), a), b)))
	}
	pos := func(x, y *Term) *Term { return mkDiv(x, y) }
	na, nb := mkSub(mkI(0), a), mkSub(mkI(0), b)
	return mkIte(mkLe(mkI(0), a), mkIte(mkLt(mkI(0), b), pos(a, b), mkSub(mkI(0), pos(a, nb))), mkIte(mkLt(mkI(0), b), mkSub(mkI(0), pos(na, b)), pos(na, nb)))
}

func goRem(a, b *Term) *Term {
	lo, _ := interval(a)
	bl, _ := interval(b)
	if lo != nil && lo.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
		return mkMod(a, b)
	}
	if bl != nil && bl.Sign() > 0 {
		return mkIte(mkLe(mkI(0), a), mkMod(a, b), mkSub(mkI(0), mkMod(mkSub(mkI(0), a), b)))
	}
	return mkSub(a, mkMul(goQuo(a, b), b))
}

func (e *SpecEnv) binary(x *ast.BinaryExpr) *Term {
	switch x.Op {
	case token.LAND:
		return mkAnd(e.eval(x.X), e.eval(x.Y))
	case token.LOR:
		return mkOr(e.eval(x.X), e.eval(x.Y))
	}
	a, b := e.eval(x.X), e.eval(x.Y)
	ta, tb := e.typeOf(x.X), e.typeOf(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		if b == tNil && isSeq(a.sort) {
			// nil-ness of a slice: only of results
			if se, ok := ast.Unparen(x.X).(*ast.SelectorExpr); ok {
				if sel, ok := e.v.p.info.Selections[se]; ok && len(sel.Index()) == 1 {
					st := sel.Recv()
					if p, ok := st.Underlying().(*types.Pointer); ok {
						st = p.Elem()
					}
					if key := e.v.fieldKey(st, sel.Obj().(*types.Var)); e.v.cs.nilField[key] {
						r := mkSelect(e.heap(e.v.nilComp(key)), e.eval(se.X))
						if x.Op == token.NEQ {
							return mkNot(r)
						}
						return r
					}
				}
			}
			id, ok := ast.Unparen(x.X).(*ast.Ident)
			if !ok || e.nils[e.v.p.info.Uses[id]] == nil {
				panic(unsupported(x.Pos(), "comparison of a slice with nil"))
			}
			r := e.nils[e.v.p.info.Uses[id]]()
			if x.Op == token.NEQ {
				return mkNot(r)
			}
			return r
		}
		if types.IsInterface(ta) && !types.IsInterface(tb) {
			b = e.conv(b, tb, ta)
		} else if types.IsInterface(tb) && !types.IsInterface(ta) {
			a = e.conv(a, ta, tb)
		} else if a == tNil && b.sort != "U" {
			a = zeroTermNil(tb)
		} else if b == tNil && a.sort != "U" {
			b = zeroTermNil(ta)
		}
		r := mkEq(a, b)
		if x.Op == token.NEQ {
			return mkNot(r)
		}
		return r
	case token.LSS:
		if a.sort == "F" {
			return mkApp("flt", "Bool", a, b)
		}
		return mkLt(a, b)
	case token.LEQ:
		if a.sort == "F" {
			return mkApp("fle", "Bool", a, b)
		}
		return mkLe(a, b)
	case token.GTR:
		if a.sort == "F" {
			return mkApp("flt", "Bool", b, a)
		}
		return mkLt(b, a)
	case token.GEQ:
		if a.sort == "F" {
			return mkApp("fle", "Bool", b, a)
		}
		return mkLe(b, a)
	}
	r := arithOp(x.Op, a, b, intKind(e.typeOf(x)))
	if r == nil {
		panic(unsupported(x.Pos(), "spec: operator %s", x.Op))
	}
	if r.sort == "Int" {
		return e.arith(x, r)
	}
	return r
}

// arithOp computes the mathematical (unwrapped) result of a binary operator.
func arithOp(op token.Token, a, b *Term, kind string) *Term {
	if a.sort == "F" {
		switch op {
		case token.ADD:
			return mkApp("fadd", "F", a, b)
		case token.SUB:
			return mkApp("fsub", "F", a, b)
		case token.MUL:
			return mkApp("fmul", "F", a, b)
		case token.QUO:
			return mkApp("fdiv", "F", a, b)
		}
		return nil
	}
	if isSeq(a.sort) && op == token.ADD {
		return mkCat(a, b)
	}
	switch op {
	case token.ADD:
		return mkAdd(a, b)
	case token.SUB:
		return mkSub(a, b)
	case token.MUL:
		return mkMul(a, b)
	case token.QUO:
		return goQuo(a, b)
	case token.REM:
		return goRem(a, b)
	case token.SHL:
		if b.op == "int" && b.num.Sign() >= 0 && b.num.Cmp(big.NewInt(128)) < 0 {
			return mkMul(a, mkInt(pow2(int(b.num.Int64()))))
		}
		return mkMul(a, mkApp("pow2", "Int", b))
	case token.SHR:
		if b.op == "int" && b.num.Sign() >= 0 && b.num.Cmp(big.NewInt(128)) < 0 {
			return mkDiv(a, mkInt(pow2(int(b.num.Int64()))))
		}
		return mkDiv(a, mkApp("pow2", "Int", b))
	case token.AND:
		if a.op == "int" {
			a, b = b, a
		}
		if b.op == "int" && b.num.Sign() >= 0 {
			if a.op == "int" {
				return mkInt(new(big.Int).And(a.num, b.num))
			}
			// contiguous mask 0..01..10..0
			m := new(big.Int).Set(b.num)
			if m.Sign() == 0 {
				return mkI(0)
			}
			s := int(m.TrailingZeroBits())
			m.Rsh(m, uint(s))
			n := m.BitLen()
			if m.Cmp(new(big.Int).Sub(pow2(n), big.NewInt(1))) == 0 {
				return mkMul(mkMod(mkDiv(a, mkInt(pow2(s))), mkInt(pow2(n))), mkInt(pow2(s)))
			}
		}
		return mkApp("band", "Int", a, b)
	case token.OR:
		if a.op == "int" && b.op == "int" {
			return mkInt(new(big.Int).Or(a.num, b.num))
		}
		return mkApp("bor", "Int", a, b)
	case token.XOR:
		if a.op == "int" && b.op == "int" {
			return mkInt(new(big.Int).Xor(a.num, b.num))
		}
		return mkApp("bxor", "Int", a, b)
	}
	return nil
}

// convert translates a Go conversion T(x).
func convertTerm(t *Term, from, to types.Type, wrap func(string, *Term) *Term) *Term {
	if types.IsInterface(to) {
		if types.IsInterface(from) {
			return t
		}
		return mkBox(from, t)
	}
	fs, ts := t.sort, sortOf(to)
	if fs == ts {
		if ts == "Int" {
			if k := intKind(to); k != "" && wrap != nil {
				return wrap(k, t)
			}
		}
		return t
	}
	if fs == "Int" && ts == "F" {
		return mkI2F(t)
	}
	if fs == "F" && ts == "Int" {
		k := intKind(to)
		// machine result of a float conversion: an uninterpreted function, exact on integers in range
		n := "f2i_" + k
		funRange[n] = wrapKinds[k]
		if t.op == "app" && t.name == "i2f" {
			lo, hi := interval(t.args[0])
			lim := pow2(53)
			if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(lim)) >= 0 && hi.Cmp(lim) <= 0 {
				r := wrapKinds[k]
				if lo.Cmp(r[0]) >= 0 && hi.Cmp(r[1]) <= 0 {
					return t.args[0]
				}
			}
		}
		return mkApp(n, "Int", t)
	}
	return nil
}

func (e *SpecEnv) call(x *ast.CallExpr) *Term {
	info := e.info()
	if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
		a := e.eval(x.Args[0])
		to := e.typeOf(x)
		from := e.typeOf(x.Args[0])
		// int is mathematical in specs
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Int && a.sort == "Int" {
			return a
		}
		wr := mkWrap
		if e.st != nil {
			wr = e.st.wrap
		}
		if r := convertTerm(a, from, to, wr); r != nil {
			return r
		}
		panic(unsupported(x.Pos(), "spec: conversion from %s to %s", from, to))
	}
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if _, isB := info.Uses[id].(*types.Builtin); isB {
			switch id.Name {
			case "len":
				a := e.eval(x.Args[0])
				if isMap(a.sort) {
					return mkApp("mcard", "Int", a)
				}
				return mkLen(a)
			case "append":
				a := e.eval(x.Args[0])
				et := e.typeOf(x.Args[0]).Underlying().(*types.Slice).Elem()
				for _, y := range x.Args[1:] {
					b := e.eval(y)
					if x.Ellipsis.IsValid() {
						a = mkCat(a, b)
					} else {
						a = mkCat(a, mkUnit(a.sort, e.conv(b, e.typeOf(y), et)))
					}
				}
				return a
			case "panic":
				panic(unsupported(x.Pos(), "spec: panic in value position"))
			}
		}
	}
	fn := calleeOf(info, x)
	if fn == nil {
		panic(unsupported(x.Pos(), "spec: call of a non-function"))
	}
	fn = fn.Origin()
	name := fn.Name()
	if fn.Pkg() != nil && fn.Pkg().Path() == e.v.p.pkg.Path() {
		switch name {
		case "OLD":
			if e.old == nil {
				panic(unsupported(x.Pos(), "OLD without an old state"))
			}
			o := *e.old
			// bound variables of quantifiers stay visible
			o.vars = map[types.Object]*Term{}
			for k, v := range e.vars {
				o.vars[k] = v
			}
			for k, v := range e.old.vars {
				o.vars[k] = v
			}
			return o.eval(x.Args[0])
		case "PRE":
			// the value on entry to the loop
			if e.pre == nil {
				panic(unsupported(x.Pos(), "PRE outside a loop"))
			}
			o := *e.pre
			o.vars = map[types.Object]*Term{}
			for k, v := range e.vars {
				o.vars[k] = v
			}
			for k, v := range e.pre.vars {
				o.vars[k] = v
			}
			return o.eval(x.Args[0])
		case "UNDER":
			// UNDER(p.field, value, e): e in the heap where the field has the value
			sel, ok := ast.Unparen(x.Args[0]).(*ast.SelectorExpr)
			if !ok {
				panic(unsupported(x.Pos(), "UNDER wants a field"))
			}
			base := e.typeOf(sel.X)
			if p, ok := base.Underlying().(*types.Pointer); ok {
				base = p.Elem()
			}
			s := info.Selections[sel]
			key := e.v.fieldKey(base, s.Obj().(*types.Var))
			if len(s.Index()) != 1 || e.v.final[key] || e.v.immut[typeKey(base)] {
				panic(unsupported(x.Pos(), "UNDER of an unchangeable field"))
			}
			o, val := e.eval(sel.X), e.eval(x.Args[1])
			u := *e
			u.heap = func(c string) *Term {
				if c == key {
					return mkStore(e.heap(c), o, val)
				}
				return e.heap(c)
			}
			return u.eval(x.Args[2])
		case "IMP":
			return mkImp(e.eval(x.Args[0]), e.eval(x.Args[1]))
		case "IFF", "EQ":
			a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
			return mkEq(a, b)
		case "ITE":
			a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
			rt := e.typeOf(x)
			a, b = e.conv(a, e.typeOf(x.Args[1]), rt), e.conv(b, e.typeOf(x.Args[2]), rt)
			return mkIte(e.eval(x.Args[0]), a, b)
		case "HAS":
			m := e.eval(x.Args[0])
			mt := e.typeOf(x.Args[0]).Underlying().(*types.Map)
			return mkMHas(m, e.conv(e.eval(x.Args[1]), e.typeOf(x.Args[1]), mt.Key()))
		case "MPUT":
			mt := e.typeOf(x.Args[0]).Underlying().(*types.Map)
			return mkMPut(e.eval(x.Args[0]), e.conv(e.eval(x.Args[1]), e.typeOf(x.Args[1]), mt.Key()), e.conv(e.eval(x.Args[2]), e.typeOf(x.Args[2]), mt.Elem()))
		case "MDEL":
			return mkMDel(e.eval(x.Args[0]), e.eval(x.Args[1]))
		case "MUNION":
			return mkApp("munion", sortOf(e.typeOf(x.Args[0])), e.eval(x.Args[0]), e.eval(x.Args[1]))
		case "CAT":
			return mkCat(e.eval(x.Args[0]), e.eval(x.Args[1]))
		case "UPD":
			return mkUpd(e.eval(x.Args[0]), e.eval(x.Args[1]), e.eval(x.Args[2]))
		case "REP":
			a := e.eval(x.Args[0])
			return mkRep("Seq_B", e.eval(x.Args[1]), a)
		case "SEEN":
			if e.seen == nil {
				panic(unsupported(x.Pos(), "SEEN outside a map range"))
			}
			s := e.seen()
			if s == nil {
				panic(unsupported(x.Pos(), "SEEN outside a map range"))
			}
			return mkSelect(s, e.eval(x.Args[0]))
		case "NOTYPE":
			return mkEq(mkTyp(e.eval(x.Args[0])), mkI(0))
		case "ISNEW":
			// allocated during the call
			if e.fresh == nil {
				return tTrue
			}
			return e.fresh(e.eval(x.Args[0]))
		case "ALL":
			fl, ok := ast.Unparen(x.Args[0]).(*ast.FuncLit)
			if !ok {
				panic(unsupported(x.Pos(), "ALL needs a function literal"))
			}
			c := e.child()
			var bound []*Term
			var guards []*Term
			for _, f := range fl.Type.Params.List {
				for _, id := range f.Names {
					o := info.Defs[id]
					b := boundVar(sortOf(o.Type()))
					if k := intKind(o.Type()); k == "uint8" {
						varRange[b] = wrapKinds[k]
						guards = append(guards, mk("le", "", "Bool", mkI(0), b), mk("le", "", "Bool", b, mkI(255)))
					}
					c.vars[o] = b
					bound = append(bound, b)
				}
			}
			body := c.block(fl.Body.List)
			if body.sort != "Bool" {
				panic(unsupported(x.Pos(), "ALL body not boolean"))
			}
			body = mkImp(mkAnd(guards...), body)
			return mkForall(bound, body)
		}
		if e.v.cs.ghost[name] {
			a := e.eval(x.Args[0])
			if a.sort != "U" {
				panic(unsupported(x.Pos(), "ghost %s applied to a non-reference", name))
			}
			rs := sortOf(fn.Type().(*types.Signature).Results().At(0).Type())
			c := e.v.comp(name, rs)
			t := mkSelect(e.heap(c), a)
			if r, ok := e.v.compRange[c]; ok {
				markRange(t, r)
			}
			return t
		}
	}
	// specification function
	if e.v.p.specFn[fn] {
		var args []*Term
		sig := fn.Type().(*types.Signature)
		for i, a := range x.Args {
			t := e.eval(a)
			t = e.conv(t, e.typeOf(a), sig.Params().At(i).Type())
			args = append(args, t)
		}
		return e.v.applySpec(fn, args, e.heap)
	}
	// pure external functions with a definitional contract
	if key := funcKey(fn, e.v.p.pkg); pureExt[key] {
		var args []*Term
		for _, a := range x.Args {
			args = append(args, e.eval(a))
		}
		return mkApp("ext_"+sanitize(key), sortOf(e.typeOf(x)), args...)
	}
	if fn.Name() == "Sprint" && fn.Pkg().Path() == "fmt" && len(x.Args) == 1 && !hasStringer(e.typeOf(x.Args[0])) {
		return showTerm(e.eval(x.Args[0]), e.typeOf(x.Args[0]), 'v')
	}
	if fn.Name() == "MustCompile" && fn.Pkg().Path() == "regexp" {
		if tv, ok := e.v.p.info.Types[x.Args[0]]; ok && tv.Value != nil {
			if t, ok := constTerm(tv); ok && t.op == "lit" {
				return mkApp("new_regexp", "U", t)
			}
		}
	}
	panic(unsupported(x.Pos(), "spec: call of %s", fn.Name()))
}

var pureExt = map[string]bool{}

// applySpec applies a specification function: non-recursive ones are inlined.
func (v *Verifier) applySpec(fn *types.Func, args []*Term, heap func(string) *Term) *Term {
	d := v.specDef(fn)
	for _, c := range d.comps {
		args = append(args, heap(c))
	}
	if d.uninterp || d.rec {
		n := "sp!" + d.name
		sig := fn.Type().(*types.Signature)
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() != types.Int {
			if k := intKind(sig.Results().At(0).Type()); k != "" {
				funRange[n] = wrapKinds[k]
			}
		}
		t := mkApp(n, d.result, args...)
		if !d.uninterp && len(d.comps) == 0 {
			return v.compute(t, 0, map[*Term]*Term{})
		}
		return t
	}
	m := map[*Term]*Term{}
	for i, f := range d.formals {
		m[f] = args[i]
	}
	for i, c := range d.cterms {
		m[c] = args[len(d.formals)+i]
	}
	r := substTerm(d.body, m, map[*Term]*Term{})
	for _, a := range args {
		if a.op == "lit" {
			return v.compute(r, 0, map[*Term]*Term{})
		}
	}
	return r
}

// compute evaluates a specification function applied to constants.
func (v *Verifier) compute(t *Term, depth int, memo map[*Term]*Term) (res *Term) {
	if r, ok := memo[t]; ok {
		return r
	}
	defer func() { memo[t] = res }()
	isConst := func(a *Term) bool { return a.op == "lit" || a.op == "int" || a == tTrue || a == tFalse }
	if depth > 300 || t.op == "ite" || len(t.args) == 0 {
		return t
	}
	if t.op == "app" {
		if d := v.specName[t.name]; d != nil && d.body != nil && !d.uninterp && len(t.args) == len(d.formals) {
			m := map[*Term]*Term{}
			for i, f := range d.formals {
				if !isConst(t.args[i]) {
					return t
				}
				m[f] = t.args[i]
			}
			r := substTerm(d.body, m, map[*Term]*Term{})
			if r = v.compute(r, depth+1, map[*Term]*Term{}); isConst(r) {
				return r
			}
			return t
		}
	}
	m := map[*Term]*Term{}
	for _, a := range t.args {
		if b := v.compute(a, depth+1, memo); b != a {
			m[a] = b
		}
	}
	if len(m) == 0 {
		return t
	}
	return substTerm(t, m, map[*Term]*Term{})
}

// specDef builds the definition of a specification function.
func (v *Verifier) specDef(fn *types.Func) *SpecDef {
	if d, ok := v.specs[fn]; ok {
		return d
	}
	sig := fn.Type().(*types.Signature)
	d := &SpecDef{fn: fn, name: fn.Name(), con: v.cs.m[fn.Name()], fuel: 2}
	v.specs[fn] = d
	v.specName["sp!"+d.name] = d
	if sig.Results().Len() != 1 {
		panic(bug("spec function %s must have one result", d.name))
	}
	d.result = sortOf(sig.Results().At(0).Type())
	d.comps = v.compsOf(fn)
	d.rec = v.isRecSpec(fn)
	if n := sig.Params().Len(); n > 0 && len(d.comps) > 0 && (d.con == nil || !d.con.global) {
		heapFrom["sp!"+d.name] = n
	}
	if d.con != nil {
		d.uninterp = d.con.uninterp
		if d.con.fuel > 0 && d.con.fuel != 1 {
			d.fuel = d.con.fuel
		}
		if d.con.spec && len(d.con.ensures) > 0 {
			d.rec = true
		}
		if d.con.opaque {
			d.rec = true
		}
	}
	env := &SpecEnv{v: v, vars: map[types.Object]*Term{}}
	decl := v.p.decls[fn]
	for i := 0; i < sig.Params().Len(); i++ {
		o := sig.Params().At(i)
		t := mkVar(fmt.Sprintf("f!%s!%d", d.name, i), sortOf(o.Type()))
		if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Kind() != types.Int {
			if k := intKind(o.Type()); k != "" {
				varRange[t] = wrapKinds[k]
			}
		}
		d.formals = append(d.formals, t)
		env.vars[o] = t
	}
	compT := map[string]*Term{}
	for _, c := range d.comps {
		t := mkVar(fmt.Sprintf("f!%s!H!%s", d.name, sanitize(c)), v.compSort[c])
		d.cterms = append(d.cterms, t)
		compT[c] = t
	}
	env.heap = func(c string) *Term {
		t, ok := compT[c]
		if !ok {
			panic(bug("spec function %s reads undeclared component %s", d.name, c))
		}
		return t
	}
	if !d.uninterp {
		d.body = env.block(decl.Body.List)
		if d.body.sort != d.result {
			panic(bug("spec function %s: body of sort %s, want %s", d.name, d.body.sort, d.result))
		}
	}
	return d
}

func (v *Verifier) isRecSpec(fn *types.Func) bool {
	// does fn reach itself through spec calls?
	seen := map[*types.Func]bool{}
	var reach func(f *types.Func) bool
	reach = func(f *types.Func) bool {
		for _, g := range v.specCallees(f) {
			if g == fn {
				return true
			}
			if !seen[g] {
				seen[g] = true
				if reach(g) {
					return true
				}
			}
		}
		return false
	}
	return reach(fn)
}

func (v *Verifier) specCallees(fn *types.Func) []*types.Func {
	d := v.p.decls[fn]
	if d == nil || d.Body == nil {
		return nil
	}
	if c := v.cs.m[fn.Name()]; c != nil && c.uninterp {
		return nil
	}
	var r []*types.Func
	ast.Inspect(d.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if f := calleeOf(v.p.info, c); f != nil && v.p.specFn[f.Origin()] {
				r = append(r, f.Origin())
			}
		}
		return true
	})
	return r
}

// compsOf: heap components a spec function reads, transitively (syntactic).
func (v *Verifier) compsOf(fn *types.Func) []string {
	if c, ok := v.specComps[fn]; ok {
		return c
	}
	set := map[string]bool{}
	seen := map[*types.Func]bool{}
	var walk func(f *types.Func)
	walk = func(f *types.Func) {
		if seen[f] {
			return
		}
		seen[f] = true
		d := v.p.decls[f]
		if d == nil {
			return
		}
		ast.Inspect(d.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SelectorExpr:
				if s, ok := v.p.info.Selections[n]; ok && s.Kind() == types.FieldVal {
					rt := v.p.info.TypeOf(n.X)
					for _, i := range s.Index() {
						base := rt
						if p, ok := base.Underlying().(*types.Pointer); ok {
							base = p.Elem()
						}
						su := base.Underlying().(*types.Struct)
						if !v.immut[typeKey(base)] {
							key := v.fieldKey(base, su.Field(i))
							if !v.final[key] {
								set[v.comp(key, sortOf(su.Field(i).Type()))] = true
							}
						}
						rt = su.Field(i).Type()
					}
				}
			case *ast.StarExpr:
				if tv, ok := v.p.info.Types[n]; ok && tv.IsValue() {
					if _, ok := tv.Type.Underlying().(*types.Struct); !ok {
						set[v.comp("deref."+sanitize(typeKey(tv.Type)), sortOf(tv.Type))] = true
					}
				}
			case *ast.Ident:
				if o, ok := v.p.info.Uses[n].(*types.Var); ok {
					if g, ok := v.p.globals[o]; ok && (g.assigned || g.init == nil) && !g.isSpec {
						set[v.comp("global."+o.Name(), sortOf(o.Type()))] = true
					}
				}
			case *ast.CallExpr:
				if g := calleeOf(v.p.info, n); g != nil {
					g = g.Origin()
					if v.cs.ghost[g.Name()] {
						set[v.comp(g.Name(), sortOf(g.Type().(*types.Signature).Results().At(0).Type()))] = true
					} else if v.p.specFn[g] {
						if c := v.cs.m[g.Name()]; c == nil || !c.uninterp {
							walk(g)
						} else {
							for _, cc := range v.uninterpReads(g) {
								set[cc] = true
							}
						}
					}
				}
			}
			return true
		})
	}
	if c := v.cs.m[fn.Name()]; c != nil && c.uninterp {
		v.specComps[fn] = v.uninterpReads(fn)
		return v.specComps[fn]
	}
	walk(fn)
	var r []string
	for c := range set {
		r = append(r, c)
	}
	sort.Strings(r)
	v.specComps[fn] = r
	return r
}

// uninterpReads: components named in a `reads` clause of an uninterpreted function
func (v *Verifier) uninterpReads(fn *types.Func) []string {
	c := v.cs.m[fn.Name()]
	var r []string
	for _, n := range c.reads {
		if v.final[n] {
			continue
		}
		if _, ok := v.compSort[n]; !ok {
			panic(bug("reads clause of %s: unknown component %s", fn.Name(), n))
		}
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// block evaluates a pure statement list to the returned value.
func (e *SpecEnv) block(list []ast.Stmt) *Term {
	if len(list) == 0 {
		panic(unsup{"spec: missing return", token.NoPos})
	}
	s, rest := list[0], list[1:]
	switch s := s.(type) {
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			panic(unsupported(s.Pos(), "spec: return needs one value"))
		}
		t := e.eval(s.Results[0])
		// box when the function returns an interface
		if t.sort != "U" {
			if rt := e.retType(s); rt != nil && types.IsInterface(rt) {
				t = mkBox(e.typeOf(s.Results[0]), t)
			}
		} else if rt := e.retType(s); rt != nil && t == tNil {
			t = zeroTermNil(rt)
		}
		return t
	case *ast.BlockStmt:
		return e.block(append(append([]ast.Stmt{}, s.List...), rest...))
	case *ast.IfStmt:
		env := e
		if s.Init != nil {
			env = e.child()
			env.simple(s.Init)
		}
		c := env.eval(s.Cond)
		a := func() *Term { return env.child().block(append(append([]ast.Stmt{}, s.Body.List...), rest...)) }
		b := func() *Term {
			var el []ast.Stmt
			if s.Else != nil {
				el = []ast.Stmt{s.Else}
			}
			return env.child().block(append(el, rest...))
		}
		if c == tTrue {
			return a()
		}
		if c == tFalse {
			return b()
		}
		x, y := a(), b()
		return mkIte(c, x, y)
	case *ast.SwitchStmt:
		env := e.child()
		if s.Init != nil {
			env.simple(s.Init)
		}
		var tag *Term
		if s.Tag != nil {
			tag = env.eval(s.Tag)
		}
		var def []ast.Stmt
		type arm struct {
			c *Term
			b []ast.Stmt
		}
		var arms []arm
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			if cl.List == nil {
				def = cl.Body
				continue
			}
			var cs []*Term
			for _, y := range cl.List {
				t := env.eval(y)
				if tag != nil {
					t = mkEq(tag, t)
				}
				cs = append(cs, t)
			}
			arms = append(arms, arm{mkOr(cs...), cl.Body})
		}
		r := env.child().block(append(append([]ast.Stmt{}, def...), rest...))
		for i := len(arms) - 1; i >= 0; i-- {
			r = mkIte(arms[i].c, env.child().block(append(append([]ast.Stmt{}, arms[i].b...), rest...)), r)
		}
		return r
	case *ast.AssignStmt, *ast.DeclStmt:
		env := e.child()
		env.simple(s)
		return env.block(rest)
	}
	panic(unsupported(s.Pos(), "spec: unsupported statement %T", s))
}

func (e *SpecEnv) retType(s *ast.ReturnStmt) types.Type {
	for fn := range e.v.p.specFn {
		d := e.v.p.decls[fn]
		if d.Body != nil && d.Body.Pos() <= s.Pos() && s.Pos() < d.Body.End() {
			// function literals (ALL) return bool
			in := false
			ast.Inspect(d.Body, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok && fl.Pos() <= s.Pos() && s.Pos() < fl.End() {
					in = true
				}
				return true
			})
			if in {
				return nil
			}
			return fn.Type().(*types.Signature).Results().At(0).Type()
		}
	}
	return nil
}

func (e *SpecEnv) simple(s ast.Stmt) {
	info := e.info()
	switch s := s.(type) {
	case *ast.AssignStmt:
		bind := func(l ast.Expr, t *Term, from types.Type) {
			id, ok := l.(*ast.Ident)
			if !ok {
				panic(unsupported(s.Pos(), "spec: assignment to a non-variable"))
			}
			if id.Name == "_" {
				return
			}
			o := info.Defs[id]
			if o == nil {
				o = info.Uses[id]
			}
			e.vars[o] = e.conv(t, from, o.Type())
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			switch r := ast.Unparen(s.Rhs[0]).(type) {
			case *ast.TypeAssertExpr:
				u := e.eval(r.X)
				t := e.typeOf(r.Type)
				ok := mkEq(mkTyp(u), mkI(tagOf(t)))
				bind(s.Lhs[0], mkUnbox(t, u), t)
				bind(s.Lhs[1], ok, types.Typ[types.Bool])
				return
			case *ast.IndexExpr:
				m := e.eval(r.X)
				mt := e.typeOf(r.X).Underlying().(*types.Map)
				k := e.conv(e.eval(r.Index), e.typeOf(r.Index), mt.Key())
				bind(s.Lhs[0], mkIte(mkMHas(m, k), e.v.markKeyed(mt.Elem(), mkMGet(m, k)), zeroTerm(mt.Elem())), mt.Elem())
				bind(s.Lhs[1], mkMHas(m, k), types.Typ[types.Bool])
				return
			}
		}
		if len(s.Lhs) != len(s.Rhs) {
			panic(unsupported(s.Pos(), "spec: multi-value assignment"))
		}
		var ts []*Term
		for i := range s.Rhs {
			t := e.eval(s.Rhs[i])
			if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
				panic(unsupported(s.Pos(), "spec: assignment operator"))
			}
			ts = append(ts, t)
		}
		for i := range s.Lhs {
			bind(s.Lhs[i], ts[i], e.typeOf(s.Rhs[i]))
		}
		return
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			if vs, ok := sp.(*ast.ValueSpec); ok {
				for i, id := range vs.Names {
					o := info.Defs[id]
					if i < len(vs.Values) {
						e.vars[o] = e.conv(e.eval(vs.Values[i]), e.typeOf(vs.Values[i]), o.Type())
					} else {
						e.vars[o] = zeroTerm(o.Type())
					}
				}
			}
		}
		return
	}
	panic(unsupported(s.Pos(), "spec: unsupported statement %T", s))
}

var _ = strings.HasPrefix
