package pdf

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"
)

type vEnt struct {
	off      int64
	gen, typ int
}

type vSect struct {
	off     int
	stream  bool
	num     int
	ents    map[int]vEnt
	trailer Dictionary
	prev    int // index of a section, -1 none, -2 nowhere
}

// vFile is a file with cross-reference sections and what loading it must record.
type vFile struct {
	r       *vRand
	d       *vDoc
	b       bytes.Buffer
	sects   []*vSect
	heads   map[int][]int64 // positions of the headers of each object
	starts  map[int64]int   // positions at which a header of an object is found
	val     map[int]string
	xs      map[int]bool
	patches map[int]int // position of a Prev value -> section
}

func (f *vFile) header(n, g int) {
	r := f.r
	sp := func() string { return r.pick(" ", " ", " ", "\n", "\r\n", "\t", "\x00", "  ", " %c\n", "%x 9 0 obx\r", "\f") }
	f.heads[n] = append(f.heads[n], int64(f.b.Len()))
	fmt.Fprintf(&f.b, "%d%s%d%sobj", n, sp(), g, sp())
}

func (f *vFile) object(n, g int) {
	r := f.r
	if r.coin(4) {
		f.b.WriteString(r.pick("\n", "%x\n", "  ", "\r\n", "startxref\n", "trailer <</A 7>>\n", "7 0 %obj\n", "3 1 %obj 5\n", "7 0 obj", "7 0 objx\n"))
	}
	f.header(n, g)
	v := fmt.Sprintf("(v%d)", r.n(100000))
	if r.coin(3) {
		v = "<</V " + v + r.pick("", " /Type /Font", " /Prev 12", " /Encrypt true", " /Type /Font /W [1 1 1] /Size 4", " /Type /Xref") + ">>"
	}
	f.val[n] = v
	f.b.WriteString(r.pick(" ", "\n") + v)
	if strings.HasPrefix(v, "<<") && r.coin(3) {
		f.b.WriteString("\nstream\n" + string(r.from("abc \n\x00\xff", r.n(20))) + "\nendstream")
	}
	f.b.WriteString(r.pick("\n", " ", "\r\n") + "endobj\n")
}

// section writes a cross-reference section.
func (f *vFile) section(s *vSect, tag int) {
	r := f.r
	if !s.stream && r.coin(8) {
		f.b.WriteString("startxref")
	}
	s.off = f.b.Len()
	var nums []int
	for n := range s.ents {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	type run struct{ at, n int }
	var runs []run
	for i := 0; i < len(nums); {
		j := i + 1
		for j < len(nums) && nums[j] == nums[j-1]+1 && !r.coin(5) {
			j++
		}
		runs = append(runs, run{nums[i], j - i})
		i = j
	}
	if r.coin(4) {
		for i := range runs {
			j := r.n(i + 1)
			runs[i], runs[j] = runs[j], runs[i]
		}
	}
	prev := func(sep string) {
		if s.prev >= 0 || s.prev == -2 {
			f.b.WriteString("/Prev ")
			f.patches[f.b.Len()] = s.prev
			f.b.WriteString("0000000000" + sep)
			s.trailer["Prev"] = nil
		}
	}
	if !s.stream {
		f.b.WriteString("xref" + r.pick("\n", "\r\n", " \n"))
		digits := "%010d"
		if r.coin(8) {
			digits = r.pick("%d", "%018d", "%011d")
		}
		for i, q := range runs {
			n := q.n
			if i == len(runs)-1 && r.coin(8) {
				n += 1 + r.n(3)
			}
			fmt.Fprintf(&f.b, "%d %d%s", q.at, n, r.pick("\n", "\r\n", " \n"))
			for k := q.at; k < q.at+q.n; k++ {
				e := s.ents[k]
				fmt.Fprintf(&f.b, digits+" %05d %s%s", e.off, e.gen, []string{"f", "n"}[e.typ], r.pick(" \n", "\r\n", " \r"))
			}
			if n > q.n && r.coin(2) {
				// an entry that ends after its offset
				fmt.Fprintf(&f.b, "%010d ", r.n(500))
			}
		}
		f.b.WriteString("trailer" + r.pick("\n", " ", "") + "<<")
		prev(" ")
		for k, v := range s.trailer {
			if k != "Prev" {
				f.b.WriteString("/" + k + " " + v.String() + " ")
			}
		}
		f.b.WriteString(">>\n")
	} else {
		// widths that hold every field
		tw, ow, gw := 1+r.n(2), 3+r.n(3), 2
		if r.coin(6) {
			tw, ow, gw = 1+r.n(8), 3+r.n(6), 2+r.n(7)
		}
		allUse, noGen := true, true
		for _, e := range s.ents {
			if e.typ != 1 {
				allUse = false
			}
			if e.gen != 0 {
				noGen = false
			}
		}
		if allUse && r.coin(2) {
			tw = 0
		}
		if noGen && r.coin(2) {
			gw = 0
		}
		var data []byte
		put := func(v int64, w int) {
			for k := w - 1; k >= 0; k-- {
				data = append(data, byte(v>>uint(8*k)))
			}
		}
		index := Array{}
		for _, q := range runs {
			index = append(index, Number(q.at), Number(q.n))
			for k := q.at; k < q.at+q.n; k++ {
				e := s.ents[k]
				put(int64(e.typ), tw)
				put(e.off, ow)
				put(int64(e.gen), gw)
			}
		}
		w := tw + ow + gw
		t := s.trailer
		t["Type"] = Name("XRef")
		t["W"] = Array{Number(tw), Number(ow), Number(gw)}
		t["Size"] = Number(100)
		plain := len(runs) == 1 && runs[0].at == 0
		if plain && r.coin(2) {
			t["Size"] = Number(runs[0].n)
		} else {
			if r.coin(6) && len(index) > 0 {
				// more entries announced than the stream holds
				index[len(index)-1] = index[len(index)-1].(Number) + 2
			}
			t["Index"] = index
		}
		if r.coin(2) && len(data) > 0 {
			t["Filter"] = Name("FlateDecode")
			if r.coin(2) {
				t["DecodeParms"] = Dictionary{"Predictor": Number(12), "Columns": Number(w)}
				data = vPngEncode(r, data, 8, 1, w)
			}
			data = vFlate(data)
		}
		for bytes.HasSuffix(data, []byte("\n")) || bytes.HasSuffix(data, []byte("\r")) {
			data = append(data, 0)
		}
		f.header(s.num, 0)
		f.xs[s.num] = true
		f.b.WriteString("<<")
		prev(" ")
		for k, v := range t {
			if k != "Prev" {
				f.b.WriteString("/" + k + " " + f.d.ser(v, nil) + " ")
			}
		}
		f.b.WriteString(">>stream\n" + string(data) + "\nendstream\nendobj\n")
	}
}

type vWant struct {
	ents    map[int]vEnt
	plain   map[int]bool // not encrypted
	trailer Dictionary
}

func (f *vFile) load(w *vWant, i int, seen map[int]bool) {
	if i < 0 || seen[i] {
		return
	}
	seen[i] = true
	s := f.sects[i]
	if s.stream {
		w.ents[s.num] = vEnt{int64(s.off), 0, 1}
		w.plain[s.num] = true
	}
	f.load(w, s.prev, seen)
	for k, v := range s.trailer {
		w.trailer[k] = v
	}
	for n, e := range s.ents {
		w.ents[n] = e
		delete(w.plain, n)
	}
	if s.stream {
		w.ents[s.num] = vEnt{-1, 0, 1}
		w.plain[s.num] = true
	}
}

// vMakeFile writes a file; broken: how often an entry points elsewhere.
func vMakeFile(r *vRand, broken int) (*vFile, []byte, *vWant) {
	f := &vFile{r: r, d: vNewDoc(r), heads: map[int][]int64{}, val: map[int]string{}, xs: map[int]bool{}, patches: map[int]int{}}
	f.d.tight = true
	if !r.coin(8) {
		f.b.WriteString("%PDF-1.7\n")
	}
	nsect := r.n(4)
	if broken == 0 && nsect == 0 {
		nsect = 1
	}
	live := map[int]int{}
	start := -1
	var ends [][2]int
	for k := 0; k < nsect; k++ {
		for j := r.n(5); j > 0; j-- {
			n := 1 + r.n(9)
			g := 0
			if r.coin(4) {
				g = r.n(4)
			}
			live[n] = g
			f.object(n, g)
		}
		s := &vSect{stream: r.coin(2), num: 20 + k, ents: map[int]vEnt{}, trailer: Dictionary{}, prev: k - 1}
		switch r.n(8) {
		case 0:
			s.prev = -1
		case 1:
			s.prev = r.n(nsect)
		case 2:
			s.prev = -2
		}
		for n, g := range live {
			hs := f.heads[n]
			if r.coin(4) {
				continue
			}
			e := vEnt{hs[len(hs)-1], g, 1}
			if r.coin(5) {
				e.off = hs[r.n(len(hs))]
			}
			if r.coin(8) {
				e = vEnt{int64(r.n(30)), g, 0}
			} else if broken > 0 && r.coin(broken) {
				switch r.n(3) {
				case 0:
					e.off += int64(r.n(9) - 4)
				case 1:
					e.off = int64(r.n(f.b.Len() + 50))
				default:
					for _, o := range f.heads {
						e.off = o[0]
					}
				}
				if e.off < 0 {
					e.off = 0
				}
			}
			s.ents[n] = e
		}
		for j := 0; j < k; j++ {
			// cross-reference streams of older sections
			if hs := f.heads[20+j]; hs != nil && r.coin(4) {
				s.ents[20+j] = vEnt{hs[0], 0, 1}
			}
		}
		for j := r.n(4); j > 0; j-- {
			// objects that are nowhere in the file
			e := vEnt{int64(r.n(1 << 20)), r.n(3), 1}
			if s.stream {
				e.typ = r.n(3)
			} else {
				e.typ = r.n(2)
			}
			if r.coin(3) {
				e.gen = r.n(60000)
			}
			s.ents[40+r.n(6)] = e
		}
		if r.coin(2) {
			s.ents[0] = vEnt{0, 65535, 0}
		}
		for j := r.n(4); j > 0; j-- {
			s.trailer[r.pick("A", "B", "C", "Info", "Root", "ID")] = Number(r.n(1000))
		}
		f.sects = append(f.sects, s)
		f.section(s, k)
		if r.coin(2) {
			// an earlier end of file
			ends = append(ends, [2]int{f.b.Len(), k})
			fmt.Fprintf(&f.b, "startxref\n%d\n%%%%EOF\n", s.off)
		}
	}
	for j := r.n(4); j > 0 && broken > 0; j-- {
		f.object(1+r.n(12), r.n(2))
	}
	if nsect > 0 {
		start = nsect - 1
		if r.coin(6) {
			start = r.n(nsect)
		}
		if broken > 0 && r.coin(8) {
			start = -2
		}
	}
	switch {
	case broken > 0 && r.coin(6):
		start = -1
		// the last one in the last 256 bytes
		for _, e := range ends {
			if e[0] >= f.b.Len()-256 {
				start = e[1]
			}
		}
	case start == -2:
		at := r.n(f.b.Len() + 200)
		for _, s := range f.sects {
			if at >= s.off-120 && at <= s.off+2 {
				at = 3
			}
		}
		if at < f.b.Len() && bytes.HasPrefix(f.b.Bytes()[sp_skip(f.b.Bytes(), at):], []byte("xref")) {
			at = 3
		}
		fmt.Fprintf(&f.b, "startxref\n%d\n%%%%EOF", at)
	case start >= 0:
		if r.coin(5) {
			f.b.WriteString(strings.Repeat("%", 20+r.n(200)) + "\n")
		}
		fmt.Fprintf(&f.b, "startxref%s%d%s%%%%EOF%s", r.pick("\n", "\r\n", " "), f.sects[start].off, r.pick("\n", "\r\n", " "), r.pick("", "\n", "\r\n", strings.Repeat("\n", 50)))
	}
	data := f.b.Bytes()
	for at, s := range f.patches {
		v := len(data) + 77
		if s >= 0 {
			v = f.sects[s].off
		}
		copy(data[at:at+10], fmt.Sprintf("%010d", v))
	}
	for _, s := range f.sects {
		if _, ok := s.trailer["Prev"]; ok {
			v := len(data) + 77
			if s.prev >= 0 {
				v = f.sects[s.prev].off
			}
			s.trailer["Prev"] = Number(v)
		}
	}
	// every section is loaded in file order, the one the end names last
	w := &vWant{map[int]vEnt{}, map[int]bool{}, Dictionary{}}
	for i := range f.sects {
		f.load(w, i, map[int]bool{})
	}
	if start >= 0 {
		f.load(w, start, map[int]bool{})
	}
	return f, data, w
}

func (f *vFile) points(data []byte, off int64, n int) bool {
	if off < 0 || off >= int64(len(data)) {
		return false
	}
	i := sp_skip(data, int(off))
	for _, h := range f.heads[n] {
		if int64(i) == h {
			return true
		}
	}
	// a header may also start inside the digits of a number
	for m, hs := range f.heads {
		for _, h := range hs {
			t := fmt.Sprint(m)
			for k := 1; k < len(t); k++ {
				if int64(i) == h+int64(k) && t[k:] == fmt.Sprint(n) {
					return true
				}
			}
		}
	}
	return false
}

func (f *vFile) check(data []byte, w *vWant, in string) {
	p := vParser(data)
	if err := p.Load(""); err != nil {
		vWit("load", "loading %s fails: %v", in, err)
		return
	}
	for n, e := range w.ents {
		x := p.Xref[n]
		hs := f.heads[n]
		switch {
		case x == nil:
			vWit("missing", "object %d has no entry in %s", n, in)
			continue
		case x.Type != e.typ || x.Generation != e.gen:
			vWit("entry", "object %d has type %d generation %d, specified is %d %d in %s", n, x.Type, x.Generation, e.typ, e.gen, in)
			continue
		}
		if e.typ == 1 && len(hs) > 0 {
			want := e.off
			if !f.points(data, e.off, n) {
				want = hs[len(hs)-1]
			}
			if x.Offset != want {
				vWit("offset", "object %d is at %d, specified is %d (listed at %d, headers at %v) in %s", n, x.Offset, want, e.off, hs, in)
			}
		} else if len(hs) == 0 && x.Offset != e.off {
			vWit("offset-listed", "object %d is at %d, listed is %d in %s", n, x.Offset, e.off, in)
		}
		if x.IsEncrypted == (w.plain[n] || f.xs[n] && x.Offset == hs[len(hs)-1]) {
			vWit("encrypted-flag", "object %d is to be decrypted: %v, in %s", n, x.IsEncrypted, in)
		}
	}
	for n, hs := range f.heads {
		if _, listed := w.ents[n]; listed {
			continue
		}
		x := p.Xref[n]
		if x == nil || x.Type != 1 || x.Offset != hs[len(hs)-1] {
			vWit("repair", "object %d, not listed, is at %v, specified is its last header at %d in %s", n, x, hs[len(hs)-1], in)
		}
	}
	for n := range p.Xref {
		if _, ok := w.ents[n]; !ok && f.heads[n] == nil {
			vWit("extra", "object %d is listed nowhere but has an entry %v in %s", n, *p.Xref[n], in)
		}
	}
	for k, v := range w.trailer {
		if !vObjEq(p.trailer[k], v) {
			vWit("trailer", "trailer entry %s is %s, specified is %s in %s", k, vObjStr(p.trailer[k]), vObjStr(v), in)
		}
	}
	for k := range p.trailer {
		if _, ok := w.trailer[k]; !ok {
			vWit("trailer-extra", "trailer entry %s is in no section of %s", k, in)
		}
	}
}

func TestVerifC14(t *testing.T) {
	n := vPick(20000, 200000)
	vRule("entries and trailer after Load of %d random files with up to 3 cross-reference tables and streams (Prev chains, cycles and dangling Prev, field widths, default and several subsections, predictors, free, in-use and compressed entries) against a model of the sections", n)
	r := vNewRand("C14")
	for i := 0; i < n && vTimeLeft(); i++ {
		f, data, w := vMakeFile(r, 0)
		in := vShowLong(string(data))
		vCall("file", string(data), func() { f.check(data, w, in) })
	}
	vDone()
}

func TestVerifC15(t *testing.T) {
	n := vPick(20000, 200000)
	vRule("entries after Load of %d random files with missing, wrong, shifted and swapped entries, missing sections and missing or wrong startxref, repeated headers, headers with comments and every white space, against a model; every object is read", n)
	r := vNewRand("C15")
	for i := 0; i < n && vTimeLeft(); i++ {
		f, data, w := vMakeFile(r, 1+r.n(4))
		in := vShowLong(string(data))
		vCall("file", string(data), func() {
			f.check(data, w, in)
			p := vParser(data)
			p.Load("")
			for n := range f.heads {
				if e, ok := w.ents[n]; !f.xs[n] && (!ok || e.typ == 1 && !f.points(data, e.off, n)) {
					o := p.GetObject(n)
					want := vParser([]byte(f.val[n]))
					v, _ := want.ReadObject(noDecryptor)
					vObjCheck("object", in, o.Value, v)
				}
			}
		})
	}
	vDone()
}

func vShowLong(s string) string {
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return fmt.Sprintf("%q", s)
}
