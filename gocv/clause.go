package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
)

// binding gives a name used in a contract clause a type and a value.
type binding struct {
	typ   types.Type
	val   func() *Term
	old   func() *Term
	pre   func() *Term
	isnil func() *Term
}

type binds map[string]binding

// missing is raised when a clause mentions a name the code does not have.
type missing struct {
	name, where string
}

func (m missing) Error() string {
	return m.where + ": the clause mentions " + m.name + ", which does not exist here"
}

// evalClause type-checks a clause in the scope of the package plus the given
// names and translates it.
func (x *Exec) evalClause(c *Clause, b binds, env *SpecEnv) *Term {
	return x.v.evalClause(c, b, env)
}

func (v *Verifier) evalClause(c *Clause, b binds, env *SpecEnv) *Term {
	pk := types.NewPackage(v.p.pkg.Path(), v.p.pkg.Name())
	sc := pk.Scope()
	env = env.child()
	if env.old != nil {
		o := env.old.child()
		env.old = o
	}
	if env.pre != nil {
		env.pre = env.pre.child()
	}
	// names bound by function literals inside the clause
	local := map[string]bool{}
	ast.Inspect(c.expr, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			for _, f := range fl.Type.Params.List {
				for _, id := range f.Names {
					local[id.Name] = true
				}
			}
		}
		return true
	})
	done := map[string]bool{}
	sels := map[*ast.Ident]bool{}
	ast.Inspect(c.expr, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			sels[s.Sel] = true
		}
		if kv, ok := n.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok {
				sels[id] = true
			}
		}
		id, ok := n.(*ast.Ident)
		if !ok || done[id.Name] || sels[id] {
			return true
		}
		done[id.Name] = true
		if bd, ok := b[id.Name]; ok {
			al := types.NewVar(token.NoPos, pk, id.Name, bd.typ)
			sc.Insert(al)
			env.vars[al] = bd.val()
			if bd.isnil != nil {
				env.nils[al] = bd.isnil
			}
			if env.old != nil && bd.old != nil {
				if t := bd.old(); t != nil {
					env.old.vars[al] = t
				}
			}
			if env.pre != nil && bd.pre != nil {
				if t := bd.pre(); t != nil {
					env.pre.vars[al] = t
				}
			}
			return true
		}
		if o := v.p.pkg.Scope().Lookup(id.Name); o != nil {
			sc.Insert(o)
			return true
		}
		if im := v.importName[id.Name]; im != nil {
			sc.Insert(types.NewPkgName(token.NoPos, pk, id.Name, im))
			return true
		}
		if types.Universe.Lookup(id.Name) == nil && !local[id.Name] {
			panic(missing{id.Name, c.where})
		}
		return true
	})
	if err := types.CheckExpr(v.p.fset, pk, token.NoPos, c.expr, v.p.info); err != nil {
		panic(unsup{"clause " + c.where + " does not type-check: " + err.Error(), token.NoPos})
	}
	return env.eval(c.expr)
}

// localBinds names the variables visible at pos in st.
func (x *Exec) localBinds(st *State, pos token.Pos, idx func() *Term) binds {
	b := binds{}
	type cand struct {
		o     types.Object
		depth token.Pos
		in    bool
	}
	best := map[string]cand{}
	for o := range st.vars {
		n := o.Name()
		if n == "_" || n == "" {
			continue
		}
		c := cand{o: o}
		if s := o.Parent(); s != nil && pos.IsValid() && s.Contains(pos) {
			c.in = true
			c.depth = s.Pos()
		} else {
			c.depth = o.Pos()
		}
		if o.Pos() > pos && c.in {
			// declared later in the same scope
			c.in = false
		}
		p, ok := best[n]
		if !ok || c.in && !p.in || c.in == p.in && (c.depth > p.depth || c.depth == p.depth && o.Pos() > p.o.Pos()) {
			best[n] = c
		}
	}
	add := func(name string, o types.Object) {
		if _, ok := o.(*types.Var); !ok {
			return
		}
		v := st.vars[o]
		if _, ok := v.(*FuncV); ok || v == nil {
			return
		}
		b[name] = binding{typ: o.Type(), val: func() *Term { return x.term(st, v) }, old: x.oldOf(o)}
	}
	for n, c := range best {
		add(n, c.o)
	}
	// parameters under the names the contract gives them
	for i, n := range x.con.params {
		if i < len(x.params) {
			if _, ok := st.vars[x.params[i]]; ok {
				add(n, x.params[i])
			}
		}
	}
	if idx != nil {
		b["IDX"] = binding{typ: types.Typ[types.Int], val: idx}
	}
	// locals renamed since the contract was written
	exp := x.v.locals[x.key]
	known := map[localDecl]bool{}
	for _, e := range exp {
		known[e] = true
	}
	for i := range x.params {
		if i < len(x.con.params) {
			known[localDecl{x.params[i].Name(), typeKey(x.params[i].Type())}] = true
		}
	}
	fn := map[localDecl]bool{} // locals anywhere in the function, or in helpers, today
	for o := range st.vars {
		fn[localDecl{o.Name(), typeKey(o.Type())}] = true
	}
	for o := range x.v.todayLocals(x.fn) {
		fn[o] = true
	}
	var objs []types.Object
	for n, c := range best {
		if !known[localDecl{n, typeKey(c.o.Type())}] {
			objs = append(objs, c.o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	// new locals in order of declaration, against the ones that are gone
	var gone, fresh []localDecl
	for _, e := range exp {
		if !fn[e] {
			gone = append(gone, e)
		}
	}
	for _, l := range x.v.localsOf(x.fn) {
		if !known[l] {
			fresh = append(fresh, l)
		}
	}
	count := func(ls []localDecl, t string) (n int) {
		for _, l := range ls {
			if l.Type == t {
				n++
			}
		}
		return
	}
	cnt := map[string]int{}
	given := map[string]cand{}
	for _, e := range gone {
		k := cnt[e.Type]
		cnt[e.Type]++
		c, found := cand{}, false
		if count(gone, e.Type) == count(fresh, e.Type) {
			j := 0
			for _, l := range fresh {
				if l.Type != e.Type {
					continue
				}
				if j == k {
					if p, ok := best[l.Name]; ok && typeKey(p.o.Type()) == e.Type {
						c, found = p, true
					}
					break
				}
				j++
			}
		} else {
			j := 0
			for _, o := range objs {
				if typeKey(o.Type()) == e.Type {
					if j == k {
						c, found = best[o.Name()], true
						break
					}
					j++
				}
			}
		}
		if p, ok := given[e.Name]; ok {
			if found && c.in && (!p.in || c.depth > p.depth) {
				given[e.Name] = c
				add(e.Name, c.o)
			}
			continue
		}
		if _, ok := b[e.Name]; ok {
			continue
		}
		if found {
			given[e.Name] = c
			add(e.Name, c.o)
		} else if idx != nil && e.Type == "int" {
			b[e.Name] = b["IDX"]
		}
	}
	return b
}

func (x *Exec) oldOf(o types.Object) func() *Term {
	for i, p := range x.params {
		if p == o {
			v := x.pvals[i]
			return func() *Term { return x.term(x.entry, v) }
		}
	}
	return nil
}

// localDecl records a local variable of the unchanged tree.
type localDecl struct{ Name, Type string }

// todayLocals: the locals of a function and of the functions without contract.
func (v *Verifier) todayLocals(fn *types.Func) map[localDecl]bool {
	if r, ok := v.today[fn]; ok {
		return r
	}
	r := map[localDecl]bool{}
	for f := range v.p.decls {
		if f == fn || !v.p.specFn[f] && v.cs.m[funcKey(f, v.p.pkg)] == nil {
			for _, l := range v.localsOf(f) {
				r[l] = true
			}
		}
	}
	if v.today == nil {
		v.today = map[*types.Func]map[localDecl]bool{}
	}
	v.today[fn] = r
	return r
}

// localsOf lists a function's local variables in order of declaration.
func (v *Verifier) localsOf(fn *types.Func) []localDecl {
	d := v.p.decls[fn]
	if d == nil || d.Body == nil {
		return nil
	}
	var r []localDecl
	seen := map[localDecl]bool{}
	ast.Inspect(d.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		if o, ok := v.p.info.Defs[id].(*types.Var); ok && o != nil && !o.IsField() && id.Name != "_" {
			l := localDecl{id.Name, typeKey(o.Type())}
			if !seen[l] {
				seen[l] = true
				r = append(r, l)
			}
		}
		return true
	})
	return r
}

// specEnv is the environment of clauses evaluated in st.
func (x *Exec) specEnv(st *State) *SpecEnv {
	e := &SpecEnv{v: x.v, vars: map[types.Object]*Term{}, heap: x.heapFn(st), st: st}
	if x.entry != nil {
		e.old = &SpecEnv{v: x.v, vars: map[types.Object]*Term{}, heap: x.heapFn(x.entry), st: st}
	}
	if n := len(x.curLoop); n > 0 {
		id := x.curLoop[n-1].seenID
		e.seen = func() *Term {
			return st.seen[id]
		}
	}
	stamp := x.stampEntry
	e.fresh = func(t *Term) *Term { return isNewTerm(t, stamp) }
	return e
}

// isNewTerm: t denotes an object allocated after the stamp
func isNewTerm(t *Term, stamp int) *Term {
	if t.op == "ite" {
		return mkIte(t.args[0], isNewTerm(t.args[1], stamp), isNewTerm(t.args[2], stamp))
	}
	if s, ok := stampOf(t); ok && s > stamp {
		return tTrue
	}
	return tFalse
}

// loadLocals reads the recorded local variables of the functions under
// contract, used to recognise renamed locals in annotations.
func (v *Verifier) loadLocals(path string) {
	b, err := os.ReadFile(path)
	if err == nil {
		json.Unmarshal(b, &v.locals)
	}
}

func (v *Verifier) saveLocals(path string) error {
	m := map[string][]localDecl{}
	for k, c := range v.cs.m {
		if fn := v.p.byKey[k]; fn != nil && !c.spec && len(c.loops) > 0 {
			m[k] = v.localsOf(fn)
		}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
