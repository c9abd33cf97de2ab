package pdf

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
)

// vLit matches a literal text at i and goes on.
func vLit(s string, i int, lit string, k func(int) bool) bool {
	return strings.HasPrefix(s[i:], lit) && k(i+len(lit))
}

// vNear: numbers may be off by what reading them rounds.
var vNear bool

// vObjText matches the text of an object at i: the entries of a dictionary may come in any order.
func vObjText(s string, i int, o Object, k func(int) bool) bool {
	switch x := o.(type) {
	case Dictionary:
		left := map[string]bool{}
		for e := range x {
			left[e] = true
		}
		var rest func(i int) bool
		rest = func(i int) bool {
			if len(left) == 0 {
				return vLit(s, i, ">>", k)
			}
			for e := range x {
				if !left[e] {
					continue
				}
				delete(left, e)
				if vLit(s, i, "/"+e+" ", func(i int) bool { return vObjText(s, i, x[e], rest) }) {
					return true
				}
				left[e] = true
			}
			return false
		}
		return vLit(s, i, "<<", rest)
	case Array:
		var rest func(i, j int) bool
		rest = func(i, j int) bool {
			if j == len(x) {
				return vLit(s, i, "]", k)
			}
			if j > 0 {
				return vLit(s, i, " ", func(i int) bool {
					return vObjText(s, i, x[j], func(i int) bool { return rest(i, j+1) })
				})
			}
			return vObjText(s, i, x[j], func(i int) bool { return rest(i, j+1) })
		}
		return vLit(s, i, "[", func(i int) bool { return rest(i, 0) })
	case String:
		return vLit(s, i, "("+string(x)+")", k)
	case Name:
		return vLit(s, i, "/"+string(x), k)
	case Keyword:
		return vLit(s, i, string(x), k)
	case Number:
		if vNear {
			j := i
			for j < len(s) && strings.IndexByte("0123456789.+-e", s[j]) >= 0 {
				j++
			}
			v, err := strconv.ParseFloat(s[i:j], 64)
			return err == nil && fmt.Sprint(v) == s[i:j] && math.Abs(v-float64(x)) <= 1e-9*math.Abs(float64(x)) && k(j)
		}
		return vLit(s, i, fmt.Sprint(float64(x)), k)
	case *Reference:
		return vLit(s, i, strconv.Itoa(x.Number)+" "+strconv.Itoa(x.Generation)+" R", k)
	}
	return false
}

// vRawReport: s lists every object of the document once, in some order.
func vRawReport(s string, d *vDoc) bool {
	left := map[int]*vIO{}
	for _, o := range d.objs {
		left[o.num] = o
	}
	var rest func(i int) bool
	rest = func(i int) bool {
		if len(left) == 0 {
			return i == len(s)
		}
		e := strings.IndexByte(s[i:], ' ')
		if e < 0 {
			return false
		}
		n, _ := strconv.Atoi(s[i : i+e])
		o, ok := left[n]
		if !ok {
			return false
		}
		delete(left, n)
		if vLit(s, i, fmt.Sprintf("%d %d obj\n", o.num, o.gen), func(i int) bool {
			return vObjText(s, i, o.val, func(i int) bool {
				end := "\nendobj\n\n"
				if o.has {
					end = "\nstream\n" + string(o.data) + "\nendstream\nendobj\n\n"
				}
				return vLit(s, i, end, rest)
			})
		}) {
			return true
		}
		left[n] = o
		return false
	}
	return rest(0)
}

func TestVerifC26(t *testing.T) {
	n := vPick(1500, 15000)
	vRule("Parse on %d random documents with objects of every kind, streams through filters and references; raw.pdf compared with the objects of the model, each once with its number, generation, value and decoded data, entries of dictionaries in any order", n)
	r := vNewRand("C26")
	vNear = true
	top := filepath.Join(vWorkDir(), "out26")
	for i := 0; i < n && vTimeLeft(); i++ {
		os.RemoveAll(top)
		os.MkdirAll(top, 0755)
		d := vRichDoc(r, []string{"../x", "a)b", "(", "\\", "<<", "stream"})
		for k := r.n(4); k > 0; k-- {
			d.maxRef = 8
			d.add(10+k, d.object(3))
		}
		for _, o := range d.objs {
			if r.coin(4) {
				o.gen = r.n(70000) % 65536
			}
		}
		text, _ := d.write(r.coin(2))
		if k := strings.LastIndex(string(text), "xref\n0 1\n"); k >= 0 && r.coin(2) {
			// a cross-reference stream that lists compressed and free objects
			x := Dictionary{"Type": Name("XRef"), "W": Array{Number(1), Number(2), Number(1)}, "Index": Array{Number(9060), Number(3)}, "Size": Number(9070), "Prev": Number(k)}
			o, at := d.stream(9999, x, []byte("\x02\x00\x05a\x00\x00\x00a\x02\x00\x05b")), len(text)
			text = append(text, d.body(o)...)
			text = append(text, fmt.Sprintf("startxref\n%d\n%%%%EOF\n", at)...)
		}
		in := string(text)
		input := filepath.Join(top, "input.pdf")
		os.WriteFile(input, text, 0644)
		out := filepath.Join(top, "out")
		vCall("Parse", in, func() {
			if err := Parse(input, "", out); err != nil {
				vWit("raw-error", "Parse fails with %v on %s", err, vShow(in))
				return
			}
			raw, err := os.ReadFile(filepath.Join(out, "raw.pdf"))
			if err != nil || !vRawReport(string(raw), d.vDoc) {
				vWit("raw", "raw.pdf holds %s (%v) for the document %s", vShow(string(raw)), err, vShow(in))
			}
		})
	}
	os.RemoveAll(top)
	vNear = false
	m := vPick(20000, 200000)
	vRule("String of %d random objects and numbered objects", m)
	d := vNewDoc(r)
	for i := 0; i < m && vTimeLeft(); i++ {
		d.maxRef = 8
		o := d.object(3)
		if r.coin(3) {
			o = Number([]float64{0, -1, 1e21, 123456789, 0.5, -0.001, 1e-7, 4294967296}[r.n(8)])
		}
		key := fmt.Sprintf("%T", o)
		vCall("String-"+key, fmt.Sprintf("%#v", o), func() {
			s := o.String()
			if !vObjText(s, 0, o, func(i int) bool { return i == len(s) }) {
				vWit("string", "%#v is written %q", o, s)
			}
			x := &IndirectObject{r.n(100), r.n(100), o, nil}
			want := "\nendobj\n"
			if r.coin(2) {
				x.Stream = append([]byte{}, r.bytes(r.n(20))...)
				want = "\nstream\n" + string(x.Stream) + "\nendstream\nendobj\n"
			}
			s = x.String()
			if !vLit(s, 0, fmt.Sprintf("%d %d obj\n", x.Number, x.Generation), func(i int) bool {
				return vObjText(s, i, o, func(i int) bool {
					return vLit(s, i, want, func(i int) bool { return i == len(s) })
				})
			}) {
				vWit("object", "object %d of %#v with data %q is written %q", x.Number, o, x.Stream, s)
			}
		})
	}
	vDone()
}
