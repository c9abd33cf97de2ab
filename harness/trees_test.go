package pdf

import (
	"fmt"
	"testing"
)

// tree makes a tree (or graph) of nodes n+1.. under a root and returns the entry for it.
// Every node is marked; ids gives the marks in the order of a complete traversal.
func (d *vDoc) tree(base, count int, names bool) Object {
	r := d.r
	num := func(i int) int { return base + i }
	next := base + count
	nodes := make([]Dictionary, count)
	for i := range nodes {
		nodes[i] = Dictionary{"Id": Number(base + i)}
	}
	ids := 1000 * base
	var direct func(depth int) Dictionary
	kids := func(i, depth int) Array {
		a := Array{}
		for k := r.n(4); k > 0; k-- {
			switch r.n(9) {
			case 0:
				a = append(a, d.object(1))
			case 1:
				a = append(a, vRef(500)) // nothing there
			case 2:
				if depth > 0 {
					a = append(a, direct(depth-1))
				}
			case 3:
				a = append(a, vRef(num(r.n(count)))) // anywhere, also back
			case 4:
				d.add(next, Number(3))
				a = append(a, vRef(next))
				next++
			default:
				if i+1 < count {
					a = append(a, vRef(num(i+1+r.n(count-i-1))))
				}
			}
		}
		return a
	}
	fill := func(x Dictionary, i, depth int) {
		if names && !r.coin(3) {
			a := Array{}
			for k := r.n(4); k > 0; k-- {
				a = append(a, String(fmt.Sprint("n", ids)), d.nameValue(ids))
				ids++
			}
			if r.coin(8) && len(a) > 0 {
				a = a[:len(a)-1]
			}
			if r.coin(5) {
				d.add(next, a)
				x["Names"] = vRef(next)
				next++
			} else {
				x["Names"] = a
			}
		} else if names && r.coin(6) {
			x["Names"] = Name("x")
		}
		if !r.coin(4) {
			a := kids(i, depth)
			if r.coin(5) {
				d.add(next, a)
				x["Kids"] = vRef(next)
				next++
			} else {
				x["Kids"] = a
			}
		}
	}
	direct = func(depth int) Dictionary {
		x := Dictionary{"Id": Number(ids)}
		ids++
		fill(x, count-1, depth)
		return x
	}
	for i := range nodes {
		fill(nodes[i], i, 2)
		d.add(num(i), nodes[i])
	}
	if r.coin(4) {
		return nodes[0]
	}
	return vRef(base)
}

func (d *vDoc) nameValue(id int) Object {
	if d.r.coin(2) {
		return Number(id)
	}
	return String(fmt.Sprint("v", id))
}

// pages: the root and every descendant reached through references, each once, depth first.
func (d *vDoc) pages(root Object) []Dictionary {
	seen := map[int]bool{}
	if r, ok := root.(*Reference); ok {
		seen[r.Number] = true
	}
	var out []Dictionary
	var walk func(x Dictionary)
	walk = func(x Dictionary) {
		out = append(out, x)
		a, _ := d.obj(vOr(x["Kids"])).(Array)
		for _, k := range a {
			if r, ok := k.(*Reference); ok && !seen[r.Number] {
				seen[r.Number] = true
				if y, ok := d.obj(k).(Dictionary); ok {
					walk(y)
				}
			}
		}
	}
	walk(d.dict(root))
	return out
}

func vOr(o Object) Object {
	if o == nil {
		return KEYWORD_NULL
	}
	return o
}

// names: the entries of the root and all its descendants, each referenced child once.
func (d *vDoc) names(root Object) Array {
	seen := map[int]bool{}
	if r, ok := root.(*Reference); ok {
		seen[r.Number] = true
	}
	out := Array{}
	var walk func(x Dictionary)
	walk = func(x Dictionary) {
		a, _ := d.obj(vOr(x["Names"])).(Array)
		out = append(out, a...)
		// a shared list of children is visited once, too
		if r, ok := x["Kids"].(*Reference); ok {
			if seen[r.Number] {
				return
			}
			seen[r.Number] = true
		}
		a, _ = d.obj(vOr(x["Kids"])).(Array)
		for _, k := range a {
			if r, ok := k.(*Reference); ok {
				if seen[r.Number] {
					continue
				}
				seen[r.Number] = true
			}
			if y, ok := d.obj(k).(Dictionary); ok {
				walk(y)
			}
		}
	}
	walk(d.dict(root))
	return out
}

func TestVerifC19(t *testing.T) {
	n := vPick(20000, 200000)
	vRule("GetPageTree and GetNameTreeMap of %d random documents: trees, shared children, cycles, direct and indirect children and child lists, missing and wrongly typed children; against a depth first traversal of the model", n)
	r := vNewRand("C19")
	for i := 0; i < n && vTimeLeft(); i++ {
		d := vNewDoc(r)
		d.maxRef = 30
		cat := Dictionary{}
		cat["P"] = d.tree(10, 1+r.n(9), false)
		cat["N"] = d.tree(50, 1+r.n(9), true)
		cat["X"] = d.object(1)
		d.add(1, cat)
		text, _ := d.write(true)
		in := string(text)
		vCall("document", in, func() {
			p, err := d.parser(text, "")
			if err != nil {
				vWit("load", "loading %s fails: %v", vShow(in), err)
				return
			}
			c, _ := p.GetObject(1).Value.(Dictionary)
			pages, ok := c.GetPageTree("P")
			want := d.pages(cat["P"])
			if !ok || len(pages) != len(want) {
				vWit("page-count", "the page tree has %d nodes (%v), specified are %d in %s", len(pages), ok, len(want), vShowLong2(in))
			} else {
				for j := range want {
					if !vObjEq(pages[j], want[j]) {
						vWit("page-order", "node %d of the page tree is %s, specified is %s in %s", j, vObjStr(pages[j]), vObjStr(want[j]), vShowLong2(in))
						break
					}
				}
			}
			names := c.GetNameTreeMap("N")
			wantN := d.names(cat["N"])
			if len(names) != len(wantN) || !vObjEq(names, wantN) {
				vWit("names", "the name tree has %s, specified is %s in %s", vObjStr(names), vObjStr(wantN), vShowLong2(in))
			}
			x, isDict := d.obj(cat["X"]).(Dictionary)
			xp, ok := c.GetPageTree("X")
			if ok != isDict || ok && !vObjEq(xp[0], x) || !ok && len(xp) != 0 {
				vWit("other", "the page tree of %s is %v %v in %s", vObjStr(cat["X"]), xp, ok, vShowLong2(in))
			}
			if !isDict && len(c.GetNameTreeMap("X")) != 0 {
				vWit("other", "the name tree of %s is not empty in %s", vObjStr(cat["X"]), vShowLong2(in))
			}
			if xp, ok := c.GetPageTree("absent"); ok || len(xp) != 0 || len(c.GetNameTreeMap("absent")) != 0 {
				vWit("absent", "an absent tree is not empty in %s", vShowLong2(in))
			}
			// deterministic traversal does not disturb the caller
		})
	}
	vDone()
}

func vShowLong2(s string) string {
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return fmt.Sprintf("%q", s)
}
