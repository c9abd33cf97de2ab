package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"regexp"
	"strings"
)

// Clause is one contract expression.
type Clause struct {
	src   string
	expr  ast.Expr
	label string
	props []string // property ids the clause is about (empty: all)
	where string
}

type LoopContract struct {
	invs []*Clause
	uses []*Clause // lemmas about the values at the head of the loop
	decr []*Clause
	// unroll: unroll completely up to this many iterations
	unroll int
	nodecr bool
	// keys: the specification function for the order in which a map is ranged over
	keys string
}

// Contract is the specification of a function (or of a spec function).
type Contract struct {
	key          string
	params       []string
	results      []string
	requires     []*Clause
	ensures      []*Clause
	finals       []*Clause // about parameters, results and the local variables, at every return where these are there
	modifies     []*Clause
	mutates      []string
	allocs       bool // may allocate objects other than those in fresh clauses
	decr         []*Clause
	loops        map[int]*LoopContract
	trusted      bool // external: contract assumed
	spec         bool // contract on a spec function (lemma proved by induction)
	global       bool // depends on more of the heap than its arguments reach
	uninterp     bool // spec function without SMT body
	bv           bool // bit-vector back end
	noterm       bool
	inlineAlways bool
	hints        []*Clause
	uses         []*Clause // applications whose lemmas are available throughout
	fuel         int
	where        string
	file         string
	order        int
	props        []string
	noret        bool
	pure         bool
	mayRecover   bool
	sealed       bool // spec: opaque, and unfolded only where a contract reveals it
	reveal       map[string]bool
	opaque       bool     // spec: never inline, unfold like a recursive function
	reads        []string // heap components an uninterpreted spec function depends on
	ghostSort    string
	cases        []caseSplit
	nilOK        bool
	owns         map[string]bool
}

type caseSplit struct {
	c    *Clause
	vals []int64
}

type Contracts struct {
	m         map[string]*Contract
	immutable map[string]bool
	ghost     map[string]bool // ghost accessor functions
	lemmas    []string
	nonnil    map[string]bool
	logField  map[string]bool
	holds     map[string]string // type invariants of immutable types and final fields
	keyed     map[string]string // object types with a specification function for the key they were first put under in a map
	positive  map[string]bool   // integer fields that are always at least 1
	nilField  map[string]bool   // slice fields whose nil-ness is tracked
	onlyTrue  map[string]bool   // map types all of whose values are true
	natural   map[string]bool   // ghost components whose values are never negative
}

var propRe = regexp.MustCompile(`^\[([A-Z0-9, ]+)\]\s*`)
var labelRe = regexp.MustCompile(`^([a-zA-Z_][a-zA-Z0-9_-]*):\s+`)

func parseClause(s, where string) (*Clause, error) {
	c := &Clause{where: where}
	s = strings.TrimSpace(s)
	if m := propRe.FindStringSubmatch(s); m != nil {
		for _, p := range strings.FieldsFunc(m[1], func(r rune) bool { return r == ',' || r == ' ' }) {
			c.props = append(c.props, p)
		}
		s = s[len(m[0]):]
	}
	if m := labelRe.FindStringSubmatch(s); m != nil {
		c.label = m[1]
		s = s[len(m[0]):]
	}
	c.src = s
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("%s: %q: %v", where, s, err)
	}
	c.expr = e
	return c, nil
}

func splitTop(s string) []string {
	var out []string
	depth := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		out = append(out, t)
	}
	return out
}

var headRe = regexp.MustCompile(`^(func|extern|spec)\s+([^\s(]+)\s*\(([^;)]*)(?:;([^)]*))?\)\s*(.*)$`)

// loadContracts parses contract files: Gobra-style clauses kept in files of
// their own, keyed by function and loop ordinal.
func loadContracts(files []string) (*Contracts, error) {
	cs := &Contracts{m: map[string]*Contract{}, immutable: map[string]bool{}, ghost: map[string]bool{}, nonnil: map[string]bool{}, logField: map[string]bool{}, natural: map[string]bool{}, holds: map[string]string{}, nilField: map[string]bool{}, positive: map[string]bool{}, keyed: map[string]string{}, onlyTrue: map[string]bool{}}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		lines := strings.Split(string(b), "\n")
		var cur *Contract
		var loop *LoopContract
		for i := 0; i < len(lines); i++ {
			where := fmt.Sprintf("%s:%d", f[strings.LastIndexByte(f, '/')+1:], i+1)
			ln := lines[i]
			if k := strings.Index(ln, "  //"); k >= 0 {
				ln = ln[:k]
			}
			t := strings.TrimSpace(ln)
			if t == "" || strings.HasPrefix(t, "//") {
				continue
			}
			// continuation lines end with a backslash
			for strings.HasSuffix(t, "\\") && i+1 < len(lines) {
				i++
				nx := lines[i]
				if k := strings.Index(nx, "  //"); k >= 0 {
					nx = nx[:k]
				}
				t = strings.TrimSuffix(t, "\\") + " " + strings.TrimSpace(nx)
			}
			if m := headRe.FindStringSubmatch(t); m != nil {
				cur = &Contract{key: m[2], loops: map[int]*LoopContract{}, where: where, file: f, fuel: 1}
				loop = nil
				for _, p := range splitTop(m[3]) {
					cur.params = append(cur.params, p)
				}
				for _, p := range splitTop(m[4]) {
					cur.results = append(cur.results, p)
				}
				cur.trusted = m[1] == "extern"
				cur.spec = m[1] == "spec"
				for _, fl := range strings.Fields(m[5]) {
					switch fl {
					case "companion":
						companionFn["sp!"+m[2]] = true
					case "global":
						cur.global = true
					case "uninterpreted":
						cur.uninterp = true
					case "bv":
						cur.bv = true
					case "allocates":
						cur.allocs = true
					case "inline":
						cur.inlineAlways = true
					case "noterm":
						cur.noterm = true
					case "opaque":
						cur.opaque = true
					case "sealed":
						cur.opaque, cur.sealed = true, true
					case "nilok":
						cur.nilOK = true
					case "noreturn":
						cur.noret = true
					default:
						if strings.HasPrefix(fl, "fuel=") {
							fmt.Sscan(fl[5:], &cur.fuel)
						} else {
							return nil, fmt.Errorf("%s: unknown flag %s", where, fl)
						}
					}
				}
				if cs.m[cur.key] != nil {
					return nil, fmt.Errorf("%s: duplicate contract %s", where, cur.key)
				}
				cur.order = len(cs.m)
				cs.m[cur.key] = cur
				continue
			}
			w := t
			rest := ""
			if k := strings.IndexAny(t, " \t["); k >= 0 {
				w, rest = t[:k], strings.TrimSpace(t[k:])
			}
			switch w {
			case "immutable":
				for _, x := range splitTop(rest) {
					cs.immutable[x] = true
				}
				continue
			case "nonnil":
				for _, x := range splitTop(rest) {
					cs.nonnil[x] = true
				}
				continue
			case "holds":
				f := strings.Fields(rest)
				if len(f) != 2 {
					return nil, fmt.Errorf("%s: holds wants a type and a specification function", where)
				}
				cs.holds[f[0]] = f[1]
				continue
			case "logfield":
				for _, x := range splitTop(rest) {
					cs.logField[x] = true
				}
				continue
			case "nilfield":
				for _, x := range splitTop(rest) {
					cs.nilField[x] = true
				}
				continue
			case "keyed":
				f := strings.Fields(rest)
				if len(f) != 2 {
					return nil, fmt.Errorf("%s: keyed wants a type and a specification function", where)
				}
				cs.keyed[f[0]] = f[1]
				continue
			case "positive":
				for _, x := range splitTop(rest) {
					cs.positive[x] = true
				}
				continue
			case "onlytrue":
				for _, x := range splitTop(rest) {
					cs.onlyTrue[x] = true
				}
				continue
			case "natural":
				for _, x := range splitTop(rest) {
					cs.natural[x] = true
				}
				continue
			case "comp":
				// comp NAME: ghost component declared before use
				continue
			case "ghost":
				for _, x := range splitTop(rest) {
					cs.ghost[x] = true
				}
				continue
			}
			if cur == nil {
				return nil, fmt.Errorf("%s: clause outside a function: %s", where, t)
			}
			switch w {
			case "props":
				cur.props = append(cur.props, strings.Fields(rest)...)
				continue
			case "reads":
				cur.reads = append(cur.reads, splitTop(rest)...)
				continue
			case "cases":
				// cases EXPR = 1..16 32
				k := strings.LastIndex(rest, "=")
				c, err := parseClause(rest[:k], where)
				if err != nil {
					return nil, err
				}
				cp := caseSplit{c: c}
				for _, f := range strings.Fields(rest[k+1:]) {
					var a, b int64
					if n, _ := fmt.Sscanf(f, "%d..%d", &a, &b); n == 2 {
						for ; a <= b; a++ {
							cp.vals = append(cp.vals, a)
						}
					} else {
						fmt.Sscan(f, &a)
						cp.vals = append(cp.vals, a)
					}
				}
				cur.cases = append(cur.cases, cp)
				continue
			case "owns":
				if cur.owns == nil {
					cur.owns = map[string]bool{}
				}
				for _, f := range splitTop(rest) {
					cur.owns[f] = true
				}
				continue
			case "mutates":
				cur.mutates = append(cur.mutates, splitTop(rest)...)
				continue
			case "loop":
				var n int
				fs := strings.Fields(rest)
				fmt.Sscan(fs[0], &n)
				loop = &LoopContract{}
				for _, x := range fs[1:] {
					if strings.HasPrefix(x, "unroll=") {
						fmt.Sscan(x[7:], &loop.unroll)
					}
					if strings.HasPrefix(x, "keys=") {
						loop.keys = x[5:]
					}
					if x == "nodecreases" {
						loop.nodecr = true
					}
				}
				cur.loops[n] = loop
				continue
			case "modifies":
				for _, x := range splitTop(rest) {
					c, err := parseClause(x, where)
					if err != nil {
						return nil, err
					}
					cur.modifies = append(cur.modifies, c)
				}
				continue
			case "decreases":
				for _, x := range splitTop(rest) {
					c, err := parseClause(x, where)
					if err != nil {
						return nil, err
					}
					if loop != nil {
						loop.decr = append(loop.decr, c)
					} else {
						cur.decr = append(cur.decr, c)
					}
				}
				continue
			}
			if w == "reveal" {
				if cur.reveal == nil {
					cur.reveal = map[string]bool{}
				}
				for _, x := range splitTop(rest) {
					cur.reveal[x] = true
				}
				continue
			}
			c, err := parseClause(rest, where)
			if err != nil {
				return nil, err
			}
			switch w {
			case "requires":
				cur.requires = append(cur.requires, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
			case "use":
				if loop != nil {
					loop.uses = append(loop.uses, c)
				} else {
					cur.uses = append(cur.uses, c)
				}
			case "finally":
				cur.finals = append(cur.finals, c)
			case "hint":
				cur.hints = append(cur.hints, c)
			case "invariant":
				if loop == nil {
					return nil, fmt.Errorf("%s: invariant outside a loop", where)
				}
				loop.invs = append(loop.invs, c)
			default:
				return nil, fmt.Errorf("%s: unknown clause %q", where, w)
			}
		}
	}
	// a clause about a property whose check does not include the function would
	// never be an obligation
	for _, k := range sortedKeys(cs.m) {
		c := cs.m[k]
		if c.spec || c.trusted || c.inlineAlways {
			continue
		}
		cl := append(append(append([]*Clause{}, c.ensures...), c.finals...), c.hints...)
		for _, l := range c.loops {
			cl = append(cl, l.invs...)
		}
		for _, x := range cl {
			for _, p := range x.props {
				if p != "C01" && p != "C02" && !has(c.props, p) {
					return nil, fmt.Errorf("%s: clause about %s, which is not a property of %s", x.where, p, k)
				}
			}
		}
	}
	return cs, nil
}
