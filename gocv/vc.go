package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Verification conditions: an obligation becomes one SMT-LIB query, with the
// specification functions unfolded on the ground applications that occur.

type vcGen struct {
	v      *Verifier
	o      *Obl
	terms  []*Term // assertions
	level  map[*Term]int
	queue  []*Term
	visit  map[*Term]int
	self   *SpecDef
	ground map[int]bool
	bonus  int
	lems   map[string]bool
	nUnf   int
}

func isBoundVar(t *Term) bool { return t.op == "var" && strings.HasPrefix(t.name, "bv!") }

var groundCache = map[int]bool{}

func isGround(t *Term) bool {
	if isBoundVar(t) {
		return false
	}
	if len(t.args) == 0 {
		return true
	}
	if g, ok := groundCache[t.id]; ok {
		return g
	}
	g := true
	if t.op == "forall" {
		// ground iff only its own variables are bound (no nesting with free bound variables in practice)
		g = false
	} else {
		for _, a := range t.args {
			if !isGround(a) {
				g = false
				break
			}
		}
	}
	groundCache[t.id] = g
	return g
}

// find collects ground spec applications at a level
func (g *vcGen) find(t *Term, lvl int) {
	if l, ok := g.visit[t]; ok && l <= lvl {
		return
	}
	g.visit[t] = lvl
	if t.op == "app" && strings.HasPrefix(t.name, "sp!") && isGround(t) {
		if l, ok := g.level[t]; !ok || lvl < l {
			g.level[t] = lvl
			if !ok {
				g.queue = append(g.queue, t)
			} else {
				g.queue = append(g.queue, t)
			}
		}
	}
	for _, a := range t.args {
		g.find(a, lvl)
	}
}

const maxUnfold = 1200

func (g *vcGen) assert(t *Term, lvl int) {
	if t == tTrue {
		return
	}
	g.terms = append(g.terms, t)
	g.find(t, lvl)
}

func instTerm(d *SpecDef, body *Term, args []*Term) *Term {
	m := map[*Term]*Term{}
	for i, f := range d.formals {
		m[f] = args[i]
	}
	for i, c := range d.cterms {
		m[c] = args[len(d.formals)+i]
	}
	return substTerm(body, m, map[*Term]*Term{})
}

// lemmaOf gives (requires, ensures, measure) of a spec function's contract over its formals;
// the ensures mentions the application itself.
type lemmaDef struct {
	req, ens *Term
	dec      []*Term
	self     *Term
}

var lemmaCache = map[*SpecDef]*lemmaDef{}

func (v *Verifier) lemma(d *SpecDef) *lemmaDef {
	if l, ok := lemmaCache[d]; ok {
		return l
	}
	lemmaCache[d] = nil
	con := d.con
	if con == nil || len(con.ensures) == 0 && len(con.decr) == 0 {
		return nil
	}
	l := &lemmaDef{}
	l.self = mkApp("sp!"+d.name, d.result, append(append([]*Term{}, d.formals...), d.cterms...)...)
	b, env := v.specBinds(d)
	var rs, es []*Term
	for _, c := range con.requires {
		rs = append(rs, v.evalClause(c, b, env))
	}
	for _, c := range con.decr {
		l.dec = append(l.dec, v.evalClause(c, b, env))
	}
	for _, c := range con.ensures {
		es = append(es, v.evalClause(c, b, env))
	}
	l.req = mkAnd(rs...)
	l.ens = mkAnd(es...)
	lemmaCache[d] = l
	return l
}

func (v *Verifier) specBinds(d *SpecDef) (binds, *SpecEnv) {
	sig := d.fn.Type().(*types.Signature)
	compT := map[string]*Term{}
	for i, c := range d.comps {
		compT[c] = d.cterms[i]
	}
	heap := func(c string) *Term { return compT[c] }
	b := binds{}
	con := d.con
	if len(con.params) != len(d.formals) {
		panic(bug("contract of %s: parameter count", d.name))
	}
	for i, n := range con.params {
		t := d.formals[i]
		b[n] = binding{typ: sig.Params().At(i).Type(), val: func() *Term { return t }}
	}
	self := mkApp("sp!"+d.name, d.result, append(append([]*Term{}, d.formals...), d.cterms...)...)
	if len(con.results) > 0 {
		b[con.results[0]] = binding{typ: sig.Results().At(0).Type(), val: func() *Term { return self }}
	}
	return b, &SpecEnv{v: v, vars: map[types.Object]*Term{}, heap: heap}
}

// open: the definition may be used here
func (g *vcGen) open(d *SpecDef) bool {
	if d.con == nil || !d.con.sealed || g.o.fn == d.name {
		return true
	}
	c := g.v.cs.m[g.o.fn]
	return c != nil && c.reveal[d.name]
}

func (g *vcGen) expand() {
	for len(g.queue) > 0 {
		t := g.queue[0]
		g.queue = g.queue[1:]
		d := g.v.specName[t.name]
		if d == nil {
			continue
		}
		lvl := g.level[t]
		if d.con != nil {
			g.v.usedSpec[d.name] = true
		}
		fuel := d.fuel + g.bonus
		if lvl > fuel {
			continue
		}
		if g.nUnf++; g.nUnf > maxUnfold {
			continue
		}
		if !d.uninterp && d.body != nil && lvl < fuel && g.open(d) {
			k := fmt.Sprintf("u%d", t.id)
			if g.lems[k] {
				// reached again at a lower level: its subterms go down too
				body := instTerm(d, d.body, t.args)
				g.find(body, lvl+1)
			} else {
				g.lems[k] = true
				body := instTerm(d, d.body, t.args)
				g.assert(mkEqRaw(t, body), lvl+1)
			}
		}
		if d.con != nil && len(d.con.ensures) > 0 && !g.lems[fmt.Sprintf("l%d", t.id)] {
			l := g.v.lemma(d)
			if l == nil {
				continue
			}
			guard := tTrue
			if g.o.selfLemma != nil {
				sd := g.v.specName[g.o.selfLemma.name]
				if d == sd || g.v.mutual(d.fn, sd.fn) {
					if t == g.o.selfLemma || len(l.dec) == 0 || len(g.o.selfDec) == 0 {
						continue
					}
					var ds []*Term
					for _, x := range l.dec {
						ds = append(ds, instTerm(d, x, t.args))
					}
					guard = lexLess(ds, g.o.selfDec)
				} else if !d.uninterp && d.con.order >= sd.con.order {
					continue
				}
			}
			g.lems[fmt.Sprintf("l%d", t.id)] = true
			f := mkImp(mkAnd(guard, instTerm(d, l.req, t.args)), instTerm(d, l.ens, t.args))
			g.assert(f, lvl+1)
		}
	}
}

// mkEqRaw is an equality without rewriting into components (keeps definitions whole)
func mkEqRaw(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == "Bool" {
		return mk("eq", "", "Bool", a, b)
	}
	return mk("eq", "", "Bool", a, b)
}

// ---------------------------------------------------------------------------
// printing

type printer struct {
	sb     strings.Builder
	decl   strings.Builder
	sorts  map[string]bool
	sortQ  []string
	funs   map[string]bool
	refs   map[*Term]int
	named  map[*Term]string
	lits   map[string]string
	litDef strings.Builder
	usesFn map[string]bool
	seqS   map[string]bool
	mapS   map[string]bool
	axF    map[string]*Term // named app functions by symbol, one sample each
	wraps  map[string]bool
}

func newPrinter() *printer {
	return &printer{sorts: map[string]bool{}, funs: map[string]bool{}, refs: map[*Term]int{}, named: map[*Term]string{}, lits: map[string]string{}, usesFn: map[string]bool{}, seqS: map[string]bool{}, mapS: map[string]bool{}, axF: map[string]*Term{}, wraps: map[string]bool{}}
}

func (p *printer) useSort(s string) {
	if p.sorts[s] {
		return
	}
	p.sorts[s] = true
	if a, ok := arrSorts[s]; ok {
		p.useSort(a.k)
		p.useSort(a.v)
		return
	}
	if e, ok := seqElem(s); ok {
		p.useSort(e)
		p.seqS[s] = true
		fmt.Fprintf(&p.decl, "(declare-sort %s 0)\n", s)
		return
	}
	if isMap(s) {
		m := mapSorts[s]
		p.useSort(m.k)
		p.useSort(m.v)
		p.mapS[s] = true
		fmt.Fprintf(&p.decl, "(declare-sort %s 0)\n", s)
		return
	}
	if s != "Bool" && s != "Int" {
		fmt.Fprintf(&p.decl, "(declare-sort %s 0)\n", s)
	}
}

func sym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			return "|" + s + "|"
		}
	}
	if s == "" {
		return "||"
	}
	return s
}

var seqFns = map[string]bool{"len": true, "at": true, "cat": true, "sub": true, "unit": true, "upd": true, "rep": true}
var mapFns = map[string]bool{"mhas": true, "mget": true, "mput": true, "mdel": true, "munion": true, "mcard": true}

func (p *printer) funName(t *Term) string {
	n := t.name
	switch {
	case n == "unit" || n == "rep":
		n += "_" + t.sort
	case seqFns[n] || mapFns[n]:
		n += "_" + t.args[0].sort
	}
	return n
}

func (p *printer) declareFun(t *Term) string {
	n := p.funName(t)
	if !p.funs[n] {
		p.funs[n] = true
		p.useSort(t.sort)
		var as []string
		for _, a := range t.args {
			p.useSort(a.sort)
			as = append(as, smtSort(a.sort))
		}
		if !seqFns[t.name] && !mapFns[t.name] && t.name != "typ" {
			fmt.Fprintf(&p.decl, "(declare-fun %s (%s) %s)\n", sym(n), strings.Join(as, " "), smtSort(t.sort))
			p.axF[n] = t
		}
	}
	return sym(n)
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	p.useSort(t.sort)
	if t.op == "app" {
		p.declareFun(t)
	}
	if t.op == "var" && !isBoundVar(t) {
		if !p.funs["v:"+t.name] {
			p.funs["v:"+t.name] = true
			if t != tNil {
				fmt.Fprintf(&p.decl, "(declare-fun %s () %s)\n", sym(t.name), smtSort(t.sort))
			}
		}
	}
	if t.op == "wrap" {
		p.wraps[t.name] = true
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *printer) lit(t *Term) string {
	if t.name == "" {
		return "empty_" + t.sort
	}
	if n, ok := p.lits[t.name]; ok {
		return n
	}
	n := fmt.Sprintf("lit!%d", len(p.lits))
	p.lits[t.name] = n
	fmt.Fprintf(&p.litDef, "(declare-fun %s () Seq_B)\n(assert (= (len_Seq_B %s) %d))\n", n, n, len(t.name))
	for i := 0; i < len(t.name); i++ {
		fmt.Fprintf(&p.litDef, "(assert (= (at_Seq_B %s %d) %d))\n", n, i, t.name[i])
	}
	if len(t.name) == 1 {
		fmt.Fprintf(&p.litDef, "(assert (= (unit_Seq_B %d) %s))\n", t.name[0], n)
	}
	return n
}

// expr prints a term; shared ground terms are defined once.
func (p *printer) expr(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	s := p.raw(t)
	if p.refs[t] > 1 && len(t.args) > 0 && isGround(t) && len(s) > 12 {
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, smtSort(t.sort), s)
		p.named[t] = n
		return n
	}
	return s
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case "int":
		return smtInt(t.num)
	case "true", "false":
		return t.op
	case "var":
		return sym(t.name)
	case "lit":
		return p.lit(t)
	case "mempty":
		return "mempty_" + t.sort
	case "forall":
		n := len(t.bound)
		var vs []string
		for _, b := range t.bound {
			vs = append(vs, "("+sym(b.name)+" "+smtSort(b.sort)+")")
		}
		body := p.expr(t.args[n])
		if len(t.pats) > 0 {
			body = "(! " + body
			for _, pt := range t.pats {
				var ps []string
				for _, q := range pt {
					ps = append(ps, p.expr(q))
				}
				body += " :pattern (" + strings.Join(ps, " ") + ")"
			}
			body += ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = p.expr(a)
	}
	j := strings.Join(as, " ")
	switch t.op {
	case "not", "and", "or", "ite", "div", "mod", "select", "store":
		return "(" + t.op + " " + j + ")"
	case "imp":
		return "(=> " + j + ")"
	case "eq":
		return "(= " + j + ")"
	case "le":
		return "(<= " + j + ")"
	case "lt":
		return "(< " + j + ")"
	case "add":
		return "(+ " + j + ")"
	case "mul", "nlmul":
		return "(* " + j + ")"
	case "wrap":
		return "(wrap_" + t.name + " " + j + ")"
	case "const":
		return "((as const " + smtSort(t.sort) + ") " + j + ")"
	case "app":
		if len(as) == 0 {
			return p.declareFun(t)
		}
		return "(" + p.declareFun(t) + " " + j + ")"
	}
	panic(bug("cannot print %s", t.op))
}

// seqAxioms: the theory of finite sequences, with matching patterns
func seqAxioms(s string) string {
	e, _ := seqElem(s)
	es := smtSort(e)
	guard := "true"
	if s == "Seq_B" {
		guard = "(and (<= 0 x) (<= x 255))"
	}
	r := strings.NewReplacer("$S", s, "$E", es, "$G", guard)
	t := `(declare-fun empty_$S () $S)
(declare-fun len_$S ($S) Int)
(declare-fun at_$S ($S Int) $E)
(declare-fun cat_$S ($S $S) $S)
(declare-fun sub_$S ($S Int Int) $S)
(declare-fun unit_$S ($E) $S)
(declare-fun upd_$S ($S Int $E) $S)
(declare-fun rep_$S (Int $E) $S)
(assert (= (len_$S empty_$S) 0))
(assert (forall ((s $S)) (! (<= 0 (len_$S s)) :pattern ((len_$S s)))))
(assert (forall ((s $S)) (! (=> (= (len_$S s) 0) (= s empty_$S)) :pattern ((len_$S s)))))
(assert (forall ((a $S) (b $S)) (! (= (len_$S (cat_$S a b)) (+ (len_$S a) (len_$S b))) :pattern ((cat_$S a b)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (= (at_$S (cat_$S a b) i) (ite (< i (len_$S a)) (at_$S a i) (at_$S b (- i (len_$S a))))) :pattern ((at_$S (cat_$S a b) i)))))
(assert (forall ((a $S)) (! (= (cat_$S a empty_$S) a) :pattern ((cat_$S a empty_$S)))))
(assert (forall ((a $S)) (! (= (cat_$S empty_$S a) a) :pattern ((cat_$S empty_$S a)))))
(assert (forall ((a $S) (b $S) (c $S)) (! (= (cat_$S (cat_$S a b) c) (cat_$S a (cat_$S b c))) :pattern ((cat_$S (cat_$S a b) c)))))
(assert (forall ((x $E)) (! (and (= (len_$S (unit_$S x)) 1) (=> $G (= (at_$S (unit_$S x) 0) x))) :pattern ((unit_$S x)))))
(assert (forall ((s $S) (i Int) (x $E)) (! (= (len_$S (upd_$S s i x)) (len_$S s)) :pattern ((upd_$S s i x)))))
(assert (forall ((s $S) (i Int) (x $E) (k Int)) (! (=> (and (<= 0 i) (< i (len_$S s)) $G) (= (at_$S (upd_$S s i x) k) (ite (= k i) x (at_$S s k)))) :pattern ((at_$S (upd_$S s i x) k)))))
(assert (forall ((n Int) (x $E)) (! (= (len_$S (rep_$S n x)) (ite (<= 0 n) n 0)) :pattern ((rep_$S n x)))))
(assert (forall ((n Int) (x $E) (k Int)) (! (=> (and (<= 0 k) (< k n) $G) (= (at_$S (rep_$S n x) k) x)) :pattern ((at_$S (rep_$S n x) k)))))
(assert (forall ((m Int) (x $E) (y $S)) (! (=> (and (<= 0 m) $G) (= (cat_$S (unit_$S x) (cat_$S (rep_$S m x) y)) (cat_$S (rep_$S (+ m 1) x) y))) :pattern ((cat_$S (unit_$S x) (cat_$S (rep_$S m x) y))))))
(assert (forall ((m Int) (x $E)) (! (=> (and (<= 0 m) $G) (= (cat_$S (unit_$S x) (rep_$S m x)) (rep_$S (+ m 1) x))) :pattern ((cat_$S (unit_$S x) (rep_$S m x))))))
(assert (forall ((s $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s))) (= (len_$S (sub_$S s i j)) (- j i))) :pattern ((sub_$S s i j)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s)) (<= 0 k) (< k (- j i))) (= (at_$S (sub_$S s i j) k) (at_$S s (+ i k)))) :pattern ((at_$S (sub_$S s i j) k)))))
(assert (forall ((s $S) (j Int)) (! (=> (= j (len_$S s)) (= (sub_$S s 0 j) s)) :pattern ((sub_$S s 0 j)))))
(assert (forall ((s $S) (i Int) (j Int) (a Int) (b Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s)) (<= 0 a) (<= a b) (<= b (- j i))) (= (sub_$S (sub_$S s i j) a b) (sub_$S s (+ i a) (+ i b)))) :pattern ((sub_$S (sub_$S s i j) a b)))))
(assert (forall ((a $S) (b $S) (i Int) (j Int)) (! (and (=> (and (<= 0 i) (<= i j) (<= j (len_$S a))) (= (sub_$S (cat_$S a b) i j) (sub_$S a i j))) (=> (and (<= (len_$S a) i) (<= i j) (<= j (+ (len_$S a) (len_$S b)))) (= (sub_$S (cat_$S a b) i j) (sub_$S b (- i (len_$S a)) (- j (len_$S a))))) (=> (and (<= 0 i) (<= i (len_$S a)) (<= (len_$S a) j) (<= j (+ (len_$S a) (len_$S b)))) (= (sub_$S (cat_$S a b) i j) (cat_$S (sub_$S a i (len_$S a)) (sub_$S b 0 (- j (len_$S a))))))) :pattern ((sub_$S (cat_$S a b) i j)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_$S s))) (= (cat_$S (sub_$S s i j) (sub_$S s j k)) (sub_$S s i k))) :pattern ((cat_$S (sub_$S s i j) (sub_$S s j k))))))
(assert (forall ((s $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (< j (len_$S s))) (= (cat_$S (sub_$S s i j) (unit_$S (at_$S s j))) (sub_$S s i (+ j 1)))) :pattern ((sub_$S s i j) (unit_$S (at_$S s j))))))
`
	if s == "Seq_B" {
		t += "(assert (forall ((s $S) (i Int)) (! (and (<= 0 (at_$S s i)) (<= (at_$S s i) 255)) :pattern ((at_$S s i)))))\n"
	}
	return r.Replace(t)
}

func mapAxioms(s string) string {
	m := mapSorts[s]
	r := strings.NewReplacer("$S", s, "$K", smtSort(m.k), "$V", smtSort(m.v))
	return r.Replace(`(declare-fun mempty_$S () $S)
(declare-fun mhas_$S ($S $K) Bool)
(declare-fun mget_$S ($S $K) $V)
(declare-fun mput_$S ($S $K $V) $S)
(declare-fun mdel_$S ($S $K) $S)
(declare-fun munion_$S ($S $S) $S)
(declare-fun mcard_$S ($S) Int)
(assert (forall ((k $K)) (! (not (mhas_$S mempty_$S k)) :pattern ((mhas_$S mempty_$S k)))))
(assert (forall ((m $S) (k $K) (v $V) (j $K)) (! (= (mhas_$S (mput_$S m k v) j) (or (= j k) (mhas_$S m j))) :pattern ((mhas_$S (mput_$S m k v) j)))))
(assert (forall ((m $S) (k $K) (v $V) (j $K)) (! (= (mget_$S (mput_$S m k v) j) (ite (= j k) v (mget_$S m j))) :pattern ((mget_$S (mput_$S m k v) j)))))
(assert (forall ((m $S) (k $K) (j $K)) (! (= (mhas_$S (mdel_$S m k) j) (and (not (= j k)) (mhas_$S m j))) :pattern ((mhas_$S (mdel_$S m k) j)))))
(assert (forall ((m $S) (k $K) (j $K)) (! (=> (not (= j k)) (= (mget_$S (mdel_$S m k) j) (mget_$S m j))) :pattern ((mget_$S (mdel_$S m k) j)))))
(assert (forall ((a $S) (b $S) (j $K)) (! (= (mhas_$S (munion_$S a b) j) (or (mhas_$S a j) (mhas_$S b j))) :pattern ((mhas_$S (munion_$S a b) j)))))
(assert (forall ((a $S) (b $S) (j $K)) (! (= (mget_$S (munion_$S a b) j) (ite (mhas_$S b j) (mget_$S b j) (mget_$S a j))) :pattern ((mget_$S (munion_$S a b) j)))))
(assert (forall ((m $S)) (! (<= 0 (mcard_$S m)) :pattern ((mcard_$S m)))))
(assert (= (mcard_$S mempty_$S) 0))
`)
}

// smt renders the query; negated selects ¬goal.
func (v *Verifier) smt(o *Obl, bonus int, noext ...bool) string {
	g := &vcGen{v: v, o: o, level: map[*Term]int{}, visit: map[*Term]int{}, lems: map[string]bool{}, bonus: bonus}
	for _, f := range o.facts {
		g.assert(f, 0)
	}
	goal := o.goal
	if !o.vacuity {
		// bound variables of a universal goal become constants
		for goal.op == "forall" || goal.op == "imp" && goal.args[1].op == "forall" {
			if goal.op == "imp" {
				g.assert(goal.args[0], 0)
				goal = goal.args[1]
			}
			m := map[*Term]*Term{}
			for _, b := range goal.bound {
				c := fresh("sk", b.sort)
				if r, ok := varRange[b]; ok {
					varRange[c] = r
				}
				m[b] = c
			}
			goal = substTerm(goal.args[len(goal.bound)], m, map[*Term]*Term{})
		}
		g.assert(mkNot(goal), 0)
	}
	for _, h := range o.hints {
		g.find(h, 0)
	}
	if o.selfLemma != nil {
		g.find(o.selfLemma, 0)
	}
	if !o.vacuity {
		g.expand()
	}
	p := newPrinter()
	p.useSort("U")
	p.useSort("Int")
	p.useSort("Seq_B")
	p.funs["v:nil"] = true
	// extensionality
	var ext []*Term
	{
		seen := map[*Term]bool{}
		n := 0
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "eq" && isGround(t) && n < 400 {
				a, b := t.args[0], t.args[1]
				if isSeq(a.sort) {
					if !(a.op == "app" && strings.HasPrefix(a.name, "sp!") && g.lems[fmt.Sprintf("u%d", a.id)]) {
						n++
						k := fresh("ext", "Int")
						la, lb := mkLen(a), mkLen(b)
						ext = append(ext, mk("or", "", "Bool", t, mkNot(mkEq(la, lb)), mk("and", "", "Bool", mkLe(mkI(0), k), mkLt(k, la), mk("not", "", "Bool", mkEqRaw(mk("app", "at", elemSort(a.sort), a, k), mk("app", "at", elemSort(a.sort), b, k))))))
					}
				} else if isMap(a.sort) {
					n++
					k := fresh("ext", mapSorts[a.sort].k)
					ha, hb := mkApp("mhas", "Bool", a, k), mkApp("mhas", "Bool", b, k)
					ga, gb := mkApp("mget", mapSorts[a.sort].v, a, k), mkApp("mget", mapSorts[a.sort].v, b, k)
					ext = append(ext, mk("or", "", "Bool", t, mk("not", "", "Bool", mk("eq", "", "Bool", ha, hb)), mk("and", "", "Bool", ha, hb, mk("not", "", "Bool", mkEqRaw(ga, gb)))))
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		if !o.vacuity && len(noext) == 0 {
			for _, t := range g.terms {
				walk(t)
			}
			for _, t := range argPairs(goal) {
				walk(t)
			}
		}
	}
	terms := append(append([]*Term{}, g.terms...), ext...)
	for _, h := range o.hints {
		if len(h.args) > 0 && isGround(h) {
			// mention the hint so that patterns see it
			terms = append(terms, mkEqRaw(fresh("hint", h.sort), h))
		}
	}
	// typing facts
	var typing []*Term
	seen := map[*Term]bool{}
	var allocs, refs []*Term
	rangeFact := func(t *Term, r [2]*big.Int) {
		typing = append(typing, mk("and", "", "Bool", mk("le", "", "Bool", mkInt(r[0]), t), mk("le", "", "Bool", t, mkInt(r[1]))))
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isGround(t) {
			if t.sort == "Int" {
				switch t.op {
				case "var":
					if r, ok := varRange[t]; ok {
						rangeFact(t, r)
					}
				case "select":
					if r, ok := selRange[t]; ok {
						rangeFact(t, r)
					}
				case "app":
					if r, ok := funRange[t.name]; ok {
						rangeFact(t, r)
					}
					if t.name == "len" && (t.args[0].op == "var" || t.args[0].op == "select") {
						typing = append(typing, mk("le", "", "Bool", t, mkInt(maxLen)))
					}
				}
			}
			if f := keyedFact[t]; f != nil {
				typing = append(typing, f)
			}
			if t.sort == "U" {
				if _, ok := allocStamp[t]; ok || distinctU[t] {
					allocs = append(allocs, t)
				} else if t.op == "var" || t.op == "select" || t.op == "app" {
					refs = append(refs, t)
				}
			}
			if t.op == "app" && t.name == "pow2" {
				for k := 0; k <= 16; k++ {
					typing = append(typing, mk("imp", "", "Bool", mkEq(t.args[0], mkI(int64(k))), mkEqRaw(t, mkInt(pow2(k)))))
				}
			}
			if t.op == "app" && (t.name == "bor" || t.name == "bxor") {
				a, b := t.args[0], t.args[1]
				for _, k := range []int{8, 32} {
					in := mk("and", "", "Bool", mkLe(mkI(0), a), mkLt(a, mkInt(pow2(k))), mkLe(mkI(0), b), mkLt(b, mkInt(pow2(k))))
					typing = append(typing, mkImp(in, mk("and", "", "Bool", mk("le", "", "Bool", mkI(0), t), mk("lt", "", "Bool", t, mkInt(pow2(k))))))
				}
			}
			if t.op == "app" && (t.name == "band") {
				a, b := t.args[0], t.args[1]
				nn := mk("and", "", "Bool", mkLe(mkI(0), a), mkLe(mkI(0), b))
				typing = append(typing, mkImp(nn, mk("and", "", "Bool", mk("le", "", "Bool", mkI(0), t), mk("le", "", "Bool", t, a), mk("le", "", "Bool", t, b))))
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range terms {
		walk(t)
	}
	for _, a := range allocs {
		if k, ok := allocTag[a]; ok {
			typing = append(typing, mkEqRaw(mk("app", "typ", "Int", a), mkI(k)))
		}
		for _, b := range refs {
			if refDistinct(a, b) && len(typing) < 3000 {
				typing = append(typing, mk("not", "", "Bool", mkEqRaw(a, b)))
			}
		}
	}
	for _, t := range terms {
		p.count(t)
	}
	for _, t := range typing {
		p.count(t)
	}
	p.count(tNil)
	var body strings.Builder
	for _, t := range typing {
		s := p.expr(t)
		fmt.Fprintf(&p.sb, "(assert %s)\n", s)
	}
	if len(allocs) > 0 {
		var ns []string
		for _, a := range allocs {
			if a != tNil {
				ns = append(ns, p.expr(a))
			}
		}
		ns = append(ns, "nil")
		if len(ns) > 1 {
			fmt.Fprintf(&p.sb, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	for i, t := range terms {
		s := p.expr(t)
		_ = i
		fmt.Fprintf(&p.sb, "(assert %s)\n", s)
	}
	// assemble
	body.WriteString("(set-logic ALL)\n")
	var sorts []string
	decl := p.decl.String()
	for _, l := range strings.Split(decl, "\n") {
		if strings.HasPrefix(l, "(declare-sort") {
			sorts = append(sorts, l)
		}
	}
	for _, s := range sorts {
		body.WriteString(s + "\n")
	}
	body.WriteString("(declare-fun nil () U)\n(declare-fun typ (U) Int)\n(assert (= (typ nil) 0))\n")
	var ks []string
	for k := range p.wraps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w := wrapKinds[k]
		n := new(big.Int).Sub(w[1], w[0])
		n.Add(n, big.NewInt(1))
		off := new(big.Int).Neg(w[0])
		fmt.Fprintf(&body, "(define-fun wrap_%s ((x Int)) Int (ite (and (<= %s x) (<= x %s)) x (- (mod (+ x %s) %s) %s)))\n", k, smtInt(w[0]), smtInt(w[1]), off, n, off)
	}
	for _, s := range sortedKeys(p.seqS) {
		body.WriteString(seqAxioms(s))
	}
	for _, s := range sortedKeys(p.mapS) {
		body.WriteString(mapAxioms(s))
	}
	for _, l := range strings.Split(decl, "\n") {
		if l != "" && !strings.HasPrefix(l, "(declare-sort") {
			body.WriteString(l + "\n")
		}
	}
	body.WriteString(p.litDef.String())
	body.WriteString(p.ctorAxioms())
	body.WriteString(p.sb.String())
	body.WriteString("(check-sat)\n")
	return body.String()
}

// argPairs: where a goal equates two applications of one function, the sequences in
// the same argument position (through conditionals), so that extensionality is at hand.
func argPairs(goal *Term) []*Term {
	var out []*Term
	var leaves func(t *Term) []*Term
	leaves = func(t *Term) []*Term {
		if t.op == "ite" {
			return append(leaves(t.args[1]), leaves(t.args[2])...)
		}
		return []*Term{t}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	var pair func(a, b *Term)
	pair = func(a, b *Term) {
		la, lb := leaves(a), leaves(b)
		if len(la)*len(lb) > 24 {
			return
		}
		for _, p := range la {
			for _, q := range lb {
				if p == q || !isGround(p) || !isGround(q) {
					continue
				}
				if p.op == "app" && q.op == "app" && p.name == q.name && len(p.args) == len(q.args) && strings.HasPrefix(p.name, "sp!") {
					for i := range p.args {
						if p.args[i] != q.args[i] && p.args[i].sort == q.args[i].sort {
							pair(p.args[i], q.args[i])
						}
					}
					continue
				}
				if isSeq(p.sort) && len(out) < 60 {
					out = append(out, mkEqRaw(p, q))
				}
			}
		}
	}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "eq" {
			pair(t.args[0], t.args[1])
			return
		}
		if t.op == "app" {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	return out
}

func elemSort(s string) string { e, _ := seqElem(s); return e }

// ctorAxioms: boxes and constructors of immutable objects
func (p *printer) ctorAxioms() string {
	var sb strings.Builder
	done := map[string]bool{}
	for _, n := range sortedKeys(p.axF) {
		t := p.axF[n]
		switch {
		case strings.HasPrefix(n, "box_") || strings.HasPrefix(n, "unbox_"):
			k := n[strings.IndexByte(n, '_')+1:]
			if done[k] {
				continue
			}
			done[k] = true
			tag := boxTags["box_"+k]
			var s string
			if strings.HasPrefix(n, "box_") {
				s = t.args[0].sort
			} else {
				s = t.sort
			}
			s = smtSort(s)
			if p.axF["box_"+k] == nil {
				fmt.Fprintf(&sb, "(declare-fun %s (%s) U)\n", sym("box_"+k), s)
			}
			if p.axF["unbox_"+k] == nil {
				fmt.Fprintf(&sb, "(declare-fun %s (U) %s)\n", sym("unbox_"+k), s)
			}
			b, u := sym("box_"+k), sym("unbox_"+k)
			fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (and (= (%s (%s x)) x) (= (typ (%s x)) %d)) :pattern ((%s x)))))\n", s, u, b, b, tag, b)
			fmt.Fprintf(&sb, "(assert (forall ((u U)) (! (=> (= (typ u) %d) (= (%s (%s u)) u)) :pattern ((%s u)))))\n", tag, b, u, u)
		case strings.HasPrefix(n, "new_"):
			k := n[4:]
			if len(t.args) == 0 {
				fmt.Fprintf(&sb, "(assert (= (typ %s) %d))\n", sym(n), boxTags[n])
				continue
			}
			var vs, xs, sels []string
			for i, a := range t.args {
				vs = append(vs, fmt.Sprintf("(x%d %s)", i, smtSort(a.sort)))
				xs = append(xs, fmt.Sprintf("x%d", i))
				sn := fmt.Sprintf("sel_%s_%d", k, i)
				if p.axF[sn] == nil {
					fmt.Fprintf(&sb, "(declare-fun %s (U) %s)\n", sym(sn), smtSort(a.sort))
				}
				sels = append(sels, sym(sn))
			}
			app := "(" + sym(n) + " " + strings.Join(xs, " ") + ")"
			var eqs []string
			var su []string
			for i, s := range sels {
				eqs = append(eqs, fmt.Sprintf("(= (%s %s) x%d)", s, app, i))
				su = append(su, "("+s+" u)")
			}
			fmt.Fprintf(&sb, "(assert (forall (%s) (! (and %s (= (typ %s) %d)) :pattern (%s))))\n", strings.Join(vs, " "), strings.Join(eqs, " "), app, boxTags[n], app)
			fmt.Fprintf(&sb, "(assert (forall ((u U)) (! (=> (= (typ u) %d) (= (%s %s) u)) :pattern (%s))))\n", boxTags[n], sym(n), strings.Join(su, " "), su[0])
		case strings.HasPrefix(n, "f2i_"):
			w := wrapKinds[n[4:]]
			lo, hi := new(big.Int).Neg(pow2(53)), pow2(53)
			if w[0].Cmp(lo) > 0 {
				lo = w[0]
			}
			if w[1].Cmp(hi) < 0 {
				hi = w[1]
			}
			if p.axF["i2f"] != nil {
				fmt.Fprintf(&sb, "(assert (forall ((n Int)) (! (=> (and (<= %s n) (<= n %s)) (= (%s (i2f n)) n)) :pattern ((%s (i2f n))))))\n", smtInt(lo), smtInt(hi), sym(n), sym(n))
			}
		}
	}
	return sb.String()
}

func dumpSMT(path, s string) { os.WriteFile(path, []byte(s), 0o644) }
