package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Sorts

// Sorts are strings naming SMT sorts: "Bool", "Int", "U" (references and
// interface values), "F" (floats), "Seq_B" (bytes), "Seq_<S>", "Map_<K>_<V>",
// "Arr_<K>_<V>" (SMT arrays, used for the heap and for ghost sets).

func seqElem(s string) (string, bool) {
	if s == "Seq_B" {
		return "Int", true
	}
	if strings.HasPrefix(s, "Seq_") {
		return s[4:], true
	}
	return "", false
}

func isSeq(s string) bool { return strings.HasPrefix(s, "Seq_") }
func isMap(s string) bool { return strings.HasPrefix(s, "Map_") }

type mapInfo struct{ k, v string }

var mapSorts = map[string]mapInfo{}

func mapSort(k, v string) string {
	n := "Map_" + k + "_" + v
	mapSorts[n] = mapInfo{k, v}
	return n
}

func arrSort(k, v string) string {
	n := "Arr_" + k + "_" + v
	arrSorts[n] = mapInfo{k, v}
	return n
}

var arrSorts = map[string]mapInfo{}

func smtSort(s string) string {
	if a, ok := arrSorts[s]; ok {
		return "(Array " + smtSort(a.k) + " " + smtSort(a.v) + ")"
	}
	return s
}

// ---------------------------------------------------------------------------
// Terms (hash-consed)

type Term struct {
	op   string // see constructors
	name string // variable / function / literal name
	args []*Term
	sort string
	num  *big.Int
	id   int
	// bound variables of quantifiers
	bound []*Term
	pats  [][]*Term
}

var termTab = map[string]*Term{}
var termCount int

func mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, name: name, args: args, sort: srt, id: termCount}
	termTab[k] = t
	return t
}

func mkInt(n *big.Int) *Term {
	t := mk("int", n.String(), "Int")
	if t.num == nil {
		t.num = new(big.Int).Set(n)
	}
	return t
}
func mkI(n int64) *Term { return mkInt(big.NewInt(n)) }

var tTrue = mk("true", "", "Bool")
var tFalse = mk("false", "", "Bool")
var tNil = mk("var", "nil", "U")

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkVar(name, srt string) *Term { return mk("var", name, srt) }

var freshCount = map[string]int{}

func fresh(prefix, srt string) *Term {
	freshCount[prefix]++
	return mkVar(fmt.Sprintf("%s!%d", prefix, freshCount[prefix]), srt)
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "le":
		return mkLt(a.args[1], a.args[0])
	case "lt":
		return mkLe(a.args[1], a.args[0])
	}
	return mk("not", "", "Bool", a)
}

func mkAnd(as ...*Term) *Term { return mkAC("and", tTrue, tFalse, as) }
func mkOr(as ...*Term) *Term  { return mkAC("or", tFalse, tTrue, as) }

func mkAC(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[-a.id] {
			return false
		}
		seen[a.id] = true
		n := mkNot(a)
		if seen[n.id] {
			return false
		}
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, "", "Bool", out...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	return mk("imp", "", "Bool", a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(bug("ite of different sorts %s %s", a.sort, b.sort))
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", "", a.sort, c, a, b)
}

// linear arithmetic normal form

type lin struct {
	c map[*Term]*big.Int
	k *big.Int
}

func toLin(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	addLin(&l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *Term, m *big.Int) {
	switch t.op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(t.num, m))
	case "add":
		for _, a := range t.args {
			addLin(l, a, m)
		}
	case "mul":
		if t.args[0].op == "int" {
			addLin(l, t.args[1], new(big.Int).Mul(m, t.args[0].num))
			return
		}
		fallthrough
	default:
		if x, ok := l.c[t]; ok {
			x.Add(x, m)
		} else {
			l.c[t] = new(big.Int).Set(m)
		}
	}
}

func fromLin(l lin) *Term {
	var ts []*Term
	for t, c := range l.c {
		if c.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		c := l.c[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, mk("mul", "", "Int", mkInt(c), t))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, mkInt(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("add", "", "Int", args...)
}

func mkAdd(a, b *Term) *Term {
	if a.sort != "Int" || b.sort != "Int" {
		panic(bug("add of %s %s", a.sort, b.sort))
	}
	l := toLin(a)
	addLin(&l, b, big.NewInt(1))
	return fromLin(l)
}
func mkSub(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}
func mkMul(a, b *Term) *Term {
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		l := lin{map[*Term]*big.Int{}, new(big.Int)}
		addLin(&l, b, a.num)
		return fromLin(l)
	}
	// canonical nonlinear product: flatten and sort factors
	var fs []*Term
	coef := big.NewInt(1)
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == "nlmul" {
			for _, x := range t.args {
				fl(x)
			}
			return
		}
		if t.op == "mul" && t.args[0].op == "int" {
			coef.Mul(coef, t.args[0].num)
			fl(t.args[1])
			return
		}
		fs = append(fs, t)
	}
	// distribute over sums
	if a.op == "add" {
		r := mkI(0)
		for _, x := range a.args {
			r = mkAdd(r, mkMul(x, b))
		}
		return r
	}
	if b.op == "add" {
		r := mkI(0)
		for _, x := range b.args {
			r = mkAdd(r, mkMul(a, x))
		}
		return r
	}
	fl(a)
	fl(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	t := mk("nlmul", "", "Int", fs...)
	if coef.Cmp(big.NewInt(1)) == 0 {
		return t
	}
	return mkMul(mkInt(coef), t)
}

// mkDiv, mkMod: SMT-LIB (Euclidean) division
func mkDiv(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return mkInt(q)
	}
	if b.op == "int" && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.op == "int" && b.num.Sign() > 0 && (a.op == "add" || a.op == "mul") {
		m, rest := splitMultiple(a, b.num)
		if lo, hi := interval(rest); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.num) < 0 {
			return m
		}
		if rest != a {
			return mkAdd(m, mkDiv(rest, b))
		}
	}
	if b.op == "int" && b.num.Sign() > 0 {
		if lo, hi := interval(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.num) < 0 {
			return mkI(0)
		}
	}
	if k := exp2(b); k >= 0 {
		// the quotient of a remainder is a remainder of the quotient
		x, m := a, -1
		if a.op == "wrap" && wrapKinds[a.name][0].Sign() == 0 {
			x, m = a.args[0], wrapKinds[a.name][1].BitLen()
		} else if a.op == "mod" {
			x, m = a.args[0], exp2(a.args[1])
		}
		if m >= k {
			return mkMod(mkDiv(x, b), mkInt(pow2(m-k)))
		}
	}
	return mk("div", "", "Int", a, b)
}

// exp2 is the exponent of a power of two, or negative.
func exp2(t *Term) int {
	if t.op != "int" || t.num.Sign() <= 0 {
		return -1
	}
	k := int(t.num.TrailingZeroBits())
	if t.num.BitLen() != k+1 {
		return -1
	}
	return k
}

// splitMultiple writes a as d*m + rest.
func splitMultiple(a *Term, d *big.Int) (*Term, *Term) {
	l := toLin(a)
	m := lin{map[*Term]*big.Int{}, new(big.Int)}
	for t, c := range l.c {
		q, r := new(big.Int).DivMod(c, d, new(big.Int))
		if r.Sign() == 0 {
			m.c[t] = q
			delete(l.c, t)
		}
	}
	q, r := new(big.Int).DivMod(l.k, d, new(big.Int))
	m.k, l.k = q, r
	return fromLin(m), fromLin(l)
}
func mkMod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return mkInt(m)
	}
	if b.op == "int" && b.num.Sign() > 0 {
		if a.op == "add" || a.op == "mul" {
			if _, rest := splitMultiple(a, b.num); rest != a {
				return mkMod(rest, b)
			}
		}
		if lo, hi := interval(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.num) < 0 {
			return a
		}
	}
	if k := exp2(b); k >= 0 {
		if a.op == "wrap" {
			w := new(big.Int).Sub(wrapKinds[a.name][1], wrapKinds[a.name][0])
			if w.BitLen() >= k {
				return mkMod(a.args[0], b)
			}
		}
		if a.op == "mod" && exp2(a.args[1]) >= k {
			return mkMod(a.args[0], b)
		}
	}
	return mk("mod", "", "Int", a, b)
}

func mkLe(a, b *Term) *Term {
	d := toLin(a)
	addLin(&d, b, big.NewInt(-1))
	t := fromLin(d)
	if t.op == "int" {
		return mkBool(t.num.Sign() <= 0)
	}
	lo, hi := interval(t)
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	return mk("le", "", "Bool", a, b)
}
func mkLt(a, b *Term) *Term {
	d := toLin(a)
	addLin(&d, b, big.NewInt(-1))
	t := fromLin(d)
	if t.op == "int" {
		return mkBool(t.num.Sign() < 0)
	}
	lo, hi := interval(t)
	if hi != nil && hi.Sign() < 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() >= 0 {
		return tFalse
	}
	return mk("lt", "", "Bool", a, b)
}
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

var two = big.NewInt(2)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// maxLen: no slice or string of the program is longer (memory is finite)
var maxLen = pow2(40)

// varRange: static type ranges of symbolic constants (facts true by typing)
var varRange = map[*Term][2]*big.Int{}

var intervalCache = map[int][2]*big.Int{}

// interval computes bounds that hold unconditionally (by typing)
func interval(t *Term) (*big.Int, *big.Int) {
	if t.op == "int" {
		return t.num, t.num
	}
	if r, ok := intervalCache[t.id]; ok {
		return r[0], r[1]
	}
	lo, hi := interval1(t)
	intervalCache[t.id] = [2]*big.Int{lo, hi}
	return lo, hi
}

func interval1(t *Term) (*big.Int, *big.Int) {
	switch t.op {
	case "var":
		if r, ok := varRange[t]; ok {
			return r[0], r[1]
		}
	case "select":
		if r, ok := selRange[t]; ok {
			return r[0], r[1]
		}
	case "app":
		if r, ok := funRange[t.name]; ok {
			return r[0], r[1]
		}
		if t.name == "len" {
			return new(big.Int), maxLen
		}
		if t.name == "pow2" {
			return big.NewInt(1), nil
		}
		if t.name == "at" && t.args[0].sort == "Seq_B" {
			return new(big.Int), big.NewInt(255)
		}
	case "wrap":
		k := wrapKinds[t.name]
		return k[0], k[1]
	case "mod":
		if t.args[1].op == "int" && t.args[1].num.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.args[1].num, big.NewInt(1))
		}
	case "div":
		if t.args[1].op == "int" && t.args[1].num.Sign() > 0 {
			lo, hi := interval(t.args[0])
			var l, h *big.Int
			if lo != nil {
				l = new(big.Int).Div(lo, t.args[1].num)
			}
			if hi != nil {
				h = new(big.Int).Div(hi, t.args[1].num)
			}
			return l, h
		}
	case "ite":
		l1, h1 := interval(t.args[1])
		l2, h2 := interval(t.args[2])
		var l, h *big.Int
		if l1 != nil && l2 != nil {
			l = l1
			if l2.Cmp(l) < 0 {
				l = l2
			}
		}
		if h1 != nil && h2 != nil {
			h = h1
			if h2.Cmp(h) > 0 {
				h = h2
			}
		}
		return l, h
	case "add":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h := interval(a)
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, l)
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, h)
				}
			}
		}
		return lo, hi
	case "mul", "nlmul":
		var lo, hi *big.Int
		for i, a := range t.args {
			l, h := interval(a)
			if l == nil || h == nil {
				return nil, nil
			}
			if i == 0 {
				lo, hi = l, h
				continue
			}
			c := []*big.Int{new(big.Int).Mul(lo, l), new(big.Int).Mul(lo, h), new(big.Int).Mul(hi, l), new(big.Int).Mul(hi, h)}
			nlo, nhi := c[0], c[0]
			for _, x := range c {
				if x.Cmp(nlo) < 0 {
					nlo = x
				}
				if x.Cmp(nhi) > 0 {
					nhi = x
				}
			}
			lo, hi = nlo, nhi
		}
		return lo, hi
	}
	return nil, nil
}

// funRange: result ranges of uninterpreted functions, by typing
var funRange = map[string][2]*big.Int{}

var wrapKinds = map[string][2]*big.Int{
	"int64":  {new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big.NewInt(1))},
	"int32":  {new(big.Int).Neg(pow2(31)), new(big.Int).Sub(pow2(31), big.NewInt(1))},
	"int16":  {new(big.Int).Neg(pow2(15)), new(big.Int).Sub(pow2(15), big.NewInt(1))},
	"int8":   {new(big.Int).Neg(pow2(7)), new(big.Int).Sub(pow2(7), big.NewInt(1))},
	"uint64": {new(big.Int), new(big.Int).Sub(pow2(64), big.NewInt(1))},
	"uint32": {new(big.Int), new(big.Int).Sub(pow2(32), big.NewInt(1))},
	"uint16": {new(big.Int), new(big.Int).Sub(pow2(16), big.NewInt(1))},
	"uint8":  {new(big.Int), new(big.Int).Sub(pow2(8), big.NewInt(1))},
}

// mkWrap reduces a mathematical integer to a machine kind
func mkWrap(kind string, a *Term) *Term {
	k, ok := wrapKinds[kind]
	if !ok {
		panic(bug("wrap kind %s", kind))
	}
	if a.op == "int" {
		if a.num.Cmp(k[0]) >= 0 && a.num.Cmp(k[1]) <= 0 {
			return a
		}
		w := new(big.Int).Sub(k[1], k[0])
		w.Add(w, big.NewInt(1))
		r := new(big.Int).Sub(a.num, k[0])
		r.Mod(r, w)
		return mkInt(r.Add(r, k[0]))
	}
	lo, hi := interval(a)
	if lo != nil && hi != nil && lo.Cmp(k[0]) >= 0 && hi.Cmp(k[1]) <= 0 {
		return a
	}
	if a.op == "wrap" && a.name == kind {
		return a
	}
	// wrap of a sum containing a wrap of the same kind: drop the inner wrap
	if a.op == "add" || a.op == "mul" {
		l := toLin(a)
		changed := false
		for t, c := range l.c {
			if t.op == "wrap" && t.name == kind {
				delete(l.c, t)
				addLin(&l, t.args[0], c)
				changed = true
				break
			}
		}
		if changed {
			return mkWrap(kind, fromLin(l))
		}
	}
	if k[0].Sign() == 0 && kind != "uint64" && kind != "uint32" {
		w := new(big.Int).Add(k[1], big.NewInt(1))
		return mkMod(a, mkInt(w))
	}
	return mk("wrap", kind, "Int", a)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(bug("eq of different sorts %s %s", a.sort, b.sort))
	}
	switch a.sort {
	case "Bool":
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	case "Int":
		d := mkSub(a, b)
		if d.op == "int" {
			return mkBool(d.num.Sign() == 0)
		}
		lo, hi := interval(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		if a.op == "ite" && b.op == "int" && a.args[1].op == "int" && a.args[2].op == "int" {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == "ite" && a.op == "int" {
			return mkEq(b, a)
		}
	case "U":
		if distinctConst(a) && distinctConst(b) || refDistinct(a, b) {
			return tFalse
		}
		if a.op == "ite" && (b.op != "ite") {
			x, y := mkEq(a.args[1], b), mkEq(a.args[2], b)
			if x.op == "true" || x.op == "false" || y.op == "true" || y.op == "false" {
				return mkIte(a.args[0], x, y)
			}
		}
		if b.op == "ite" && (a.op != "ite") {
			return mkEqU(b, a)
		}
		if k1, ok1 := ctorTag(a); ok1 {
			if k2, ok2 := ctorTag(b); ok2 && k1 != k2 {
				return tFalse
			}
			if b == tNil {
				return tFalse
			}
		}
		if _, ok2 := ctorTag(b); ok2 && a == tNil {
			return tFalse
		}
	default:
		if isSeq(a.sort) {
			ea, oka := explode(a)
			eb, okb := explode(b)
			if oka && okb {
				if len(ea) != len(eb) {
					return tFalse
				}
				var cs []*Term
				for i := range ea {
					cs = append(cs, mkEq(ea[i], eb[i]))
				}
				return mkAnd(cs...)
			}
			// cancel common prefix pieces
			pa, pb := pieces(a), pieces(b)
			n := 0
			for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
				n++
			}
			if n > 0 {
				return mkEq(catOf(a.sort, pa[n:]), catOf(a.sort, pb[n:]))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", "Bool", a, b)
}

func mkEqU(a, b *Term) *Term {
	x, y := mkEq(a.args[1], b), mkEq(a.args[2], b)
	if x.op == "true" || x.op == "false" || y.op == "true" || y.op == "false" {
		return mkIte(a.args[0], x, y)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", "Bool", a, b)
}

// ctorTag: the dynamic type of a term built by a box or constructor function
func ctorTag(t *Term) (int64, bool) {
	if t.op == "app" {
		k, ok := boxTags[t.name]
		return k, ok
	}
	return 0, false
}

var distinctU = map[*Term]bool{}

func distinctConst(t *Term) bool { return t == tNil || distinctU[t] }

func mkApp(name, srt string, args ...*Term) *Term {
	if name == "pow2" && args[0].op == "int" && args[0].num.Sign() >= 0 && args[0].num.Cmp(big.NewInt(128)) < 0 {
		return mkInt(pow2(int(args[0].num.Int64())))
	}
	if strings.HasPrefix(name, "fin_") && len(args) == 1 {
		if r, ok := finApps[finKey{args[0], name}]; ok {
			return r
		}
		if args[0].op == "ite" {
			return mkIte(args[0].args[0], mkApp(name, srt, args[0].args[1]), mkApp(name, srt, args[0].args[2]))
		}
	}
	if d, ok := heapFrom[name]; ok {
		args = stripHeaps(args, d)
	}
	return mk("app", name, srt, args...)
}

// finApps: values of final fields by the name of the function that reads them
var finApps = map[finKey]*Term{}

// heapFrom: specification functions that read the heap through their arguments,
// and the index of the first of their arguments that is part of the heap.
var heapFrom = map[string]int{}

// holdsNoRef: sorts whose values reach no object
func holdsNoRef(s string) bool {
	switch {
	case s == "Int" || s == "Bool" || s == "F" || s == "Seq_B":
		return true
	case strings.HasPrefix(s, "Seq_"):
		return holdsNoRef(s[4:])
	case isMap(s):
		m, ok := mapSorts[s]
		return ok && holdsNoRef(m.k) && holdsNoRef(m.v)
	}
	return false
}

// stripHeaps drops from the heap what was stored in objects that were allocated
// after everything the function is applied to: it cannot reach them.
func stripHeaps(args []*Term, d int) []*Term {
	any := false
	for _, h := range args[d:] {
		for t := h; t.op == "store"; t = t.args[0] {
			if _, ok := stampOf(t.args[1]); ok {
				any = true
			}
		}
	}
	if !any {
		return args
	}
	b := 0
	up := func(t *Term) {
		if holdsNoRef(t.sort) {
			return
		}
		if n := birthOf(t); n > b {
			b = n
		}
	}
	for _, a := range args[:d] {
		up(a)
	}
	for {
		b0 := b
		for _, h := range args[d:] {
			t := h
			for ; t.op == "store"; t = t.args[0] {
				if s, ok := stampOf(t.args[1]); !ok || s <= b {
					up(t.args[1])
					up(t.args[2])
				}
			}
			up(t)
		}
		if b == b0 {
			break
		}
	}
	var strip func(t *Term) *Term
	strip = func(t *Term) *Term {
		if t.op != "store" {
			return t
		}
		base := strip(t.args[0])
		if s, ok := stampOf(t.args[1]); ok && s > b {
			return base
		}
		if base == t.args[0] {
			return t
		}
		return mkStore(base, t.args[1], t.args[2])
	}
	out := append([]*Term{}, args[:d]...)
	for _, h := range args[d:] {
		out = append(out, strip(h))
	}
	return out
}

func mkSelect(a, i *Term) *Term {
	info := arrSorts[a.sort]
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if mkEq(a.args[1], i) == tFalse {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "const" {
		return a.args[0]
	}
	if a.op == "ite" {
		x := mkSelect(a.args[1], i)
		y := mkSelect(a.args[2], i)
		return mkIte(a.args[0], x, y)
	}
	return mk("select", "", info.v, a, i)
}

func mkStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, a, i, v)
}

func mkConstArr(srt string, v *Term) *Term { return mk("const", "", srt, v) }

// ---------------------------------------------------------------------------
// sequences

func mkEmpty(srt string) *Term { return mk("lit", "", srt) }

func mkLit(s string) *Term { return mk("lit", s, "Seq_B") }

func mkLen(s *Term) *Term {
	switch s.op {
	case "lit":
		return mkI(int64(len(s.name)))
	case "app":
		switch s.name {
		case "unit":
			return mkI(1)
		case "cat":
			return mkAdd(mkLen(s.args[0]), mkLen(s.args[1]))
		case "upd":
			return mkLen(s.args[0])
		}
	case "ite":
		a, b := mkLen(s.args[1]), mkLen(s.args[2])
		if a == b {
			return a
		}
	}
	return mkApp("len", "Int", s)
}

func mkUnit(srt string, x *Term) *Term {
	if srt == "Seq_B" && x.op == "int" {
		return mkLit(string([]byte{byte(x.num.Int64())}))
	}
	return mkApp("unit", srt, x)
}

func pieces(s *Term) []*Term {
	if s.op == "lit" && s.name == "" {
		return nil
	}
	if s.op == "app" && s.name == "cat" {
		return append(pieces(s.args[0]), pieces(s.args[1])...)
	}
	if s.op == "lit" && len(s.name) > 1 {
		var r []*Term
		for i := 0; i < len(s.name); i++ {
			r = append(r, mkLit(s.name[i:i+1]))
		}
		return r
	}
	return []*Term{s}
}

// catOf builds a right-nested concatenation, merging adjacent literals
func catOf(srt string, ps []*Term) *Term {
	var out []*Term
	for _, p := range ps {
		if p.op == "lit" && p.name == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].op == "lit" && p.op == "lit" {
			out[n-1] = mkLit(out[n-1].name + p.name)
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return mkEmpty(srt)
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = mkApp("cat", srt, out[i], r)
	}
	return r
}

func mkCat(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(bug("cat of %s and %s", a.sort, b.sort))
	}
	return catOf(a.sort, append(append([]*Term{}, pieces(a)...), pieces(b)...))
}

// explode returns the elements of a sequence built only from units/literals
func explode(s *Term) ([]*Term, bool) {
	var r []*Term
	for _, p := range pieces(s) {
		if p.op == "lit" {
			r = append(r, mkI(int64(p.name[0])))
		} else if p.op == "app" && p.name == "unit" {
			r = append(r, p.args[0])
		} else if p.op == "app" && p.name == "upd" {
			e, ok := explode(p.args[0])
			if !ok || p.args[1].op != "int" {
				return nil, false
			}
			i := p.args[1].num.Int64()
			if i < 0 || int(i) >= len(e) {
				return nil, false
			}
			e = append([]*Term{}, e...)
			e[i] = p.args[2]
			r = append(r, e...)
		} else {
			return nil, false
		}
	}
	return r, true
}

func mkAt(s, i *Term) *Term {
	e, _ := seqElem(s.sort)
	if i.op == "int" {
		if el, ok := explode(s); ok {
			k := i.num.Int64()
			if k >= 0 && int(k) < len(el) {
				return el[k]
			}
		}
	}
	if s.op == "ite" {
		return mkIte(s.args[0], mkAt(s.args[1], i), mkAt(s.args[2], i))
	}
	if s.op == "app" && s.name == "upd" {
		if s.args[1] == i {
			// valid only in range; the executor checked the bound when writing
			return s.args[2]
		}
		if mkEq(s.args[1], i) == tFalse {
			return mkAt(s.args[0], i)
		}
	}
	if s.op == "app" && s.name == "cat" && i.op == "int" {
		ps := pieces(s)
		k := new(big.Int).Set(i.num)
		for _, p := range ps {
			l := mkLen(p)
			if l.op != "int" {
				break
			}
			if k.Cmp(l.num) < 0 && k.Sign() >= 0 {
				return mkAt(p, mkInt(k))
			}
			k.Sub(k, l.num)
		}
	}
	if s.op == "app" && s.name == "cat" {
		// index at exactly the length of a prefix
		ps := pieces(s)
		off := mkI(0)
		for _, p := range ps {
			d := mkSub(i, off)
			if d.op == "int" && d.num.Sign() >= 0 {
				l := mkLen(p)
				if l.op == "int" && d.num.Cmp(l.num) < 0 {
					return mkAt(p, d)
				}
			}
			off = mkAdd(off, mkLen(p))
		}
	}
	return mkApp("at", e, s, i)
}

func mkSubSeq(s, i, j *Term) *Term {
	if i.op == "int" && i.num.Sign() == 0 && j == mkLen(s) {
		return s
	}
	if mkEq(i, j) == tTrue {
		return mkEmpty(s.sort)
	}
	if el, ok := explode(s); ok && i.op == "int" && j.op == "int" {
		a, b := i.num.Int64(), j.num.Int64()
		if a >= 0 && a <= b && int(b) <= len(el) {
			var ps []*Term
			for _, e := range el[a:b] {
				ps = append(ps, mkUnit(s.sort, e))
			}
			return catOf(s.sort, ps)
		}
	}
	if i.op == "int" && i.num.Sign() == 0 {
		// prefix that falls on a piece boundary
		ps := pieces(s)
		off := mkI(0)
		for n, p := range ps {
			if off == j && n > 0 {
				return catOf(s.sort, ps[:n])
			}
			off = mkAdd(off, mkLen(p))
		}
	}
	if j == mkLen(s) {
		ps := pieces(s)
		off := mkI(0)
		for n, p := range ps {
			if off == i {
				return catOf(s.sort, ps[n:])
			}
			off = mkAdd(off, mkLen(p))
		}
	}
	return mkApp("sub", s.sort, s, i, j)
}

func mkUpd(s, i, v *Term) *Term {
	if el, ok := explode(s); ok && i.op == "int" {
		k := i.num.Int64()
		if k >= 0 && int(k) < len(el) {
			var ps []*Term
			for n, e := range el {
				if n == int(k) {
					e = v
				}
				ps = append(ps, mkUnit(s.sort, e))
			}
			return catOf(s.sort, ps)
		}
	}
	return mkApp("upd", s.sort, s, i, v)
}

func mkRep(srt string, n, x *Term) *Term {
	if n.op == "int" && n.num.Sign() >= 0 && n.num.Cmp(big.NewInt(64)) <= 0 {
		var ps []*Term
		for i := int64(0); i < n.num.Int64(); i++ {
			ps = append(ps, mkUnit(srt, x))
		}
		return catOf(srt, ps)
	}
	return mkApp("rep", srt, n, x)
}

// ---------------------------------------------------------------------------
// finite maps

func mkMEmpty(srt string) *Term { return mk("mempty", srt, srt) }
func mkMHas(m, k *Term) *Term {
	switch m.op {
	case "mempty":
		return tFalse
	case "ite":
		return mkIte(m.args[0], mkMHas(m.args[1], k), mkMHas(m.args[2], k))
	case "app":
		if m.name == "mput" {
			e := mkEq(m.args[1], k)
			if e == tTrue {
				return tTrue
			}
			return mkOr(e, mkMHas(m.args[0], k))
		}
		if m.name == "mdel" {
			e := mkEq(m.args[1], k)
			return mkAnd(mkNot(e), mkMHas(m.args[0], k))
		}
	}
	return mkApp("mhas", "Bool", m, k)
}
func mkMGet(m, k *Term) *Term {
	switch m.op {
	case "ite":
		return mkIte(m.args[0], mkMGet(m.args[1], k), mkMGet(m.args[2], k))
	case "app":
		if m.name == "mput" {
			e := mkEq(m.args[1], k)
			return mkIte(e, m.args[2], mkMGet(m.args[0], k))
		}
		if m.name == "mdel" && mkEq(m.args[1], k) == tFalse {
			return mkMGet(m.args[0], k)
		}
	}
	return mkApp("mget", mapSorts[m.sort].v, m, k)
}
func mkMPut(m, k, v *Term) *Term {
	for m.op == "app" && (m.name == "mput" || m.name == "mdel") && m.args[1] == k {
		m = m.args[0]
	}
	return mkApp("mput", m.sort, m, k, v)
}

func mkMDel(m, k *Term) *Term {
	for m.op == "app" && (m.name == "mput" || m.name == "mdel") && m.args[1] == k {
		m = m.args[0]
	}
	return mkApp("mdel", m.sort, m, k)
}

// ---------------------------------------------------------------------------
// quantifiers

var boundCount int

func mkForall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue {
		return tTrue
	}
	args := append(append([]*Term{}, bound...), body)
	t := mk("forall", fmt.Sprint(len(bound)), "Bool", args...)
	t.bound = bound
	if t.pats == nil {
		t.pats = pats
	}
	return t
}

func boundVar(srt string) *Term {
	boundCount++
	return mkVar(fmt.Sprintf("bv!%d", boundCount), srt)
}

// substitute replaces variables in t
func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	changed := false
	for i, a := range t.args {
		as[i] = substTerm(a, m, memo)
		if as[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, as, m, memo)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term, m, memo map[*Term]*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(as[0])
	case "and":
		return mkAnd(as...)
	case "or":
		return mkOr(as...)
	case "imp":
		return mkImp(as[0], as[1])
	case "ite":
		return mkIte(as[0], as[1], as[2])
	case "add":
		r := mkI(0)
		for _, a := range as {
			r = mkAdd(r, a)
		}
		return r
	case "mul", "nlmul":
		r := as[0]
		for _, a := range as[1:] {
			r = mkMul(r, a)
		}
		return r
	case "div":
		return mkDiv(as[0], as[1])
	case "mod":
		return mkMod(as[0], as[1])
	case "le":
		return mkLe(as[0], as[1])
	case "lt":
		return mkLt(as[0], as[1])
	case "eq":
		return mkEq(as[0], as[1])
	case "wrap":
		return mkWrap(t.name, as[0])
	case "select":
		return mkSelect(as[0], as[1])
	case "store":
		return mkStore(as[0], as[1], as[2])
	case "const":
		return mkConstArr(t.sort, as[0])
	case "forall":
		n := len(t.bound)
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, substTerm(x, m, memo))
			}
			pats = append(pats, q)
		}
		return mkForall(as[:n], as[n], pats...)
	case "app":
		switch t.name {
		case "len":
			return mkLen(as[0])
		case "at":
			return mkAt(as[0], as[1])
		case "sub":
			return mkSubSeq(as[0], as[1], as[2])
		case "cat":
			return mkCat(as[0], as[1])
		case "unit":
			return mkUnit(t.sort, as[0])
		case "upd":
			return mkUpd(as[0], as[1], as[2])
		case "rep":
			return mkRep(t.sort, as[0], as[1])
		case "mhas":
			return mkMHas(as[0], as[1])
		case "mget":
			return mkMGet(as[0], as[1])
		case "mput":
			return mkMPut(as[0], as[1], as[2])
		case "mdel":
			return mkMDel(as[0], as[1])
		}
		return reApp(t.name, t.sort, as)
	}
	return mk(t.op, t.name, t.sort, as...)
}

// reApp re-applies a named function with simplification hooks
func reApp(name, srt string, as []*Term) *Term {
	if strings.HasPrefix(name, "unbox_") && as[0].op == "app" && as[0].name == "box_"+name[6:] {
		return as[0].args[0]
	}
	if strings.HasPrefix(name, "sel_") && as[0].op == "app" && strings.HasPrefix(as[0].name, "new_") {
		// sel_T_i(new_T(...))
		k := strings.LastIndexByte(name, '_')
		if as[0].name[4:] == name[4:k] {
			var i int
			fmt.Sscan(name[k+1:], &i)
			return as[0].args[i]
		}
	}
	if name == "typ" {
		return mkTyp(as[0])
	}
	if (strings.HasPrefix(name, "unbox_") || strings.HasPrefix(name, "sel_")) && as[0].op == "ite" {
		return mkIte(as[0].args[0], reApp(name, srt, []*Term{as[0].args[1]}), reApp(name, srt, []*Term{as[0].args[2]}))
	}
	return mkApp(name, srt, as...)
}

type bugErr struct{ msg string }

func (b bugErr) Error() string { return b.msg }

func bug(f string, a ...interface{}) bugErr { return bugErr{"internal: " + fmt.Sprintf(f, a...)} }

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.op {
	case "int":
		return t.name
	case "var":
		return t.name
	case "true", "false":
		return t.op
	case "lit":
		return fmt.Sprintf("%q", t.name)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	n := t.op
	if t.op == "app" {
		n = t.name
	} else if t.name != "" {
		n = t.op + ":" + t.name
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}
