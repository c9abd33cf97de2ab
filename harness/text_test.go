package pdf

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// vFont is the model of a character map.
type vFont struct {
	width int
	codes map[int]string
	keys  []int
	any   bool
}

func vCode(c, width int) string {
	b := make([]byte, width)
	for i := width - 1; i >= 0; i-- {
		b[i] = byte(c)
		c >>= 8
	}
	return string(b)
}

func (r *vRand) hex(s string) string {
	if r.coin(2) {
		return fmt.Sprintf("<%X>", s)
	}
	t := "<"
	for i := 0; i < len(s); i++ {
		t += fmt.Sprintf("%02x", s[i])
		if r.coin(8) {
			t += r.pick(" ", "\n")
		}
	}
	return t + ">"
}

// font makes a character map and its model.
func (r *vRand) font() (string, *vFont) {
	f := &vFont{width: 1 + r.n(2), codes: map[int]string{}, any: true}
	if r.coin(10) {
		f.width = 3
	}
	max := 1 << (8 * f.width)
	if r.coin(2) {
		max = 64
	}
	s := r.pick("", "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n", "%c\n")
	if r.coin(2) {
		s += fmt.Sprintf("1 begincodespacerange\n<%s> <%s>\nendcodespacerange\n", strings.Repeat("00", f.width), strings.Repeat("FF", f.width))
	}
	val := func() string { return string(r.bytes(1 + r.n(4))) }
	for k := r.n(4); k > 0; k-- {
		n := r.n(5)
		if r.coin(2) {
			s += fmt.Sprintf("%d beginbfchar\n", n)
			for ; n > 0; n-- {
				c, v := r.n(max), val()
				s += r.hex(vCode(c, f.width)) + r.pick(" ", "", "\n") + r.hex(v) + r.pick("\n", " ", "\r\n")
				f.codes[c] = v
				f.keys = append(f.keys, c)
			}
			s += "endbfchar\n"
		} else {
			s += fmt.Sprintf("%d beginbfrange\n", n)
			for ; n > 0; n-- {
				c, v := r.n(max), val()
				room := 255 - int(v[len(v)-1])
				span := r.n(room + 1)
				if r.coin(2) {
					span = r.n(4)
				}
				if span > room {
					span = room
				}
				if c+span >= 1<<(8*f.width) {
					span = 1<<(8*f.width) - 1 - c
				}
				s += r.hex(vCode(c, f.width)) + r.pick(" ", "") + r.hex(vCode(c+span, f.width)) + r.pick(" ", "\n") + r.hex(v) + r.pick("\n", " ")
				for j := 0; j <= span; j++ {
					f.codes[c+j] = v[:len(v)-1] + string([]byte{v[len(v)-1] + byte(j)})
				}
				f.keys = append(f.keys, c, c+span, c+span+1, c+span/2)
			}
			s += "endbfrange\n"
		}
	}
	if len(f.keys) == 0 {
		f.width = 1 // no entries: every byte passes
	}
	return s + r.pick("", "endcmap\n"), f
}

func (f *vFont) decode(s string) string {
	out := ""
	for i := 0; i+f.width <= len(s); i += f.width {
		c := 0
		for j := 0; j < f.width; j++ {
			c = c<<8 | int(s[i+j])
		}
		if v, ok := f.codes[c]; ok {
			out += v
		} else {
			out += s[i : i+f.width]
		}
	}
	return out
}

func (r *vRand) shown(f *vFont) string {
	s := ""
	for k := r.n(5); k > 0; k-- {
		c := r.n(1 << (8 * f.width))
		if len(f.keys) > 0 && !r.coin(3) {
			c = f.keys[r.n(len(f.keys))] & (1<<(8*f.width) - 1)
		}
		s += vCode(c, f.width)
	}
	return s
}

// content makes a content stream and what it shows.
func (d *vDoc) content(fonts map[string]*vFont, names []string) (string, string) {
	r := d.r
	s, want := "", ""
	none := &vFont{width: 1, codes: map[int]string{}}
	noise := func() {
		for k := r.n(3); k > 0; k-- {
			s += r.pick("q\n", "Q ", "1 0 0 1 2 3 cm\n", "/Im1 Do\n", "0.5 g ", "%Tj (no) Tj\n", "[1 2] 0 d\n", "T*\n", "/x <</A (b)>> BDC\n")
		}
	}
	for b := r.n(4); b > 0; b-- {
		noise()
		if r.coin(4) {
			s += "(outside) Tj\n/F1 3 Tf\n[(out) 2] TJ\n"
		}
		s += "BT" + r.pick("\n", " ")
		cur := none
		for k := r.n(7); k > 0; k-- {
			noise()
			switch r.n(5) {
			case 0, 1:
				n := r.pick(append(names, "Unknown")...)
				if f, ok := fonts[n]; ok {
					cur = f
				} else {
					cur = none
				}
				s += d.ser(Name(n), nil) + " " + r.pick("12", "1.5", "-3") + " Tf\n"
			case 2:
				a := Array{}
				t := ""
				for j := r.n(5); j > 0; j-- {
					x := r.shown(cur)
					t += x
					a = append(a, String(x))
					for r.coin(2) {
						a = append(a, Number(r.n(100)-50))
					}
				}
				s += d.ser(a, nil) + r.pick(" ", "") + "TJ\n"
				want += cur.decode(t) + "\n"
			default:
				t := r.shown(cur)
				op := r.pick("Tj", "'", "\"")
				if op == "\"" {
					s += "1 2 "
				}
				s += d.ser(String(t), nil) + r.pick(" ", "", "\n") + op + r.pick("\n", " ")
				want += cur.decode(t) + "\n"
			}
		}
		noise()
		if b == 1 && r.coin(6) {
			break // not closed
		}
		s += r.pick("\n", " ") + "ET\n"
	}
	return s, want
}

func TestVerifC23(t *testing.T) {
	n := vPick(6000, 60000)
	vRule("Parse on %d random documents: page trees whose pages show text in several fonts with bfchar and bfrange maps of one to three byte codes, in streams and arrays of streams; contents.txt compared with the model", n)
	r := vNewRand("C23")
	top := filepath.Join(vWorkDir(), "out23")
	os.MkdirAll(top, 0755)
	input, out := filepath.Join(top, "in.pdf"), filepath.Join(top, "out")
	for i := 0; i < n && vTimeLeft(); i++ {
		d := vNewDoc(r)
		next := 100
		d.tight = r.coin(2)
		put := func(o Object) Object {
			if !r.coin(2) {
				return o
			}
			next++
			d.add(next, o)
			return vRef(next)
		}
		strm := func(s string) Object {
			next++
			x := Dictionary{}
			raw := []byte(s)
			if r.coin(2) || bytes.Contains(raw, []byte("endstream")) || bytes.HasSuffix(raw, []byte("\r")) || bytes.HasSuffix(raw, []byte("\n")) {
				raw, x["Filter"] = []byte(fmt.Sprintf("%x>", raw)), Name("ASCIIHexDecode")
			}
			o := d.stream(next, x, []byte(s))
			o.raw = raw
			return vRef(next)
		}
		fonts := map[string]*vFont{}
		names := []string{}
		fd := Dictionary{}
		for k := r.n(4); k > 0; k-- {
			name := fmt.Sprint("F", k)
			cmap, f := r.font()
			x := Dictionary{"Type": Name("Font")}
			if r.coin(5) {
				f = &vFont{width: 1, codes: map[int]string{}}
			} else {
				x["ToUnicode"] = strm(cmap)
			}
			fd[name] = put(x)
			fonts[name] = f
			names = append(names, name)
		}
		res := put(Dictionary{"Font": put(fd)})
		text := map[int]string{}
		page := func(id int) Dictionary {
			x := Dictionary{"Id": Number(id)}
			fs, ns := fonts, names
			if r.coin(6) {
				fs, ns = map[string]*vFont{}, append([]string{}, names...)
			} else {
				x["Resources"] = res
			}
			switch r.n(4) {
			case 0:
				a := Array{}
				for k := r.n(4); k > 0; k-- {
					s, w := d.content(fs, ns)
					text[id] += w
					a = append(a, strm(s))
					if r.coin(8) {
						a = append(a, Number(1))
					}
				}
				x["Contents"] = put(a)
			case 1:
			default:
				s, w := d.content(fs, ns)
				text[id] = w
				x["Contents"] = strm(s)
			}
			return x
		}
		var root Dictionary
		count := 1 + r.n(5)
		for k := count; k >= 1; k-- {
			x := page(k)
			kids := Array{}
			for j := k + 1; j <= count; j++ {
				if r.coin(2) {
					kids = append(kids, vRef(j))
				}
			}
			if len(kids) > 0 {
				x["Kids"] = kids
			}
			d.add(k, x)
			root = x
		}
		_ = root
		d.add(50, Dictionary{"Type": Name("Catalog"), "Pages": vRef(1)})
		want := ""
		for _, p := range d.pages(vRef(1)) {
			want += text[int(p["Id"].(Number))]
		}
		b, _ := d.write(r.coin(2))
		in := string(b)
		os.WriteFile(input, b, 0644)
		vCall("Parse", in, func() {
			if err := Parse(input, "", out); err != nil {
				vWit("error", "Parse fails with %v on %s", err, vShowLong2(in))
				return
			}
			got, _ := os.ReadFile(filepath.Join(out, "contents.txt"))
			if string(got) != want {
				vWit("text", "contents.txt is %q, specified is %q on %s", got, want, vShowLong2(in))
			}
		})
	}
	os.RemoveAll(top)
	m := vPick(20000, 200000)
	vRule("NewFont and Decode on %d random character maps and texts", m)
	for i := 0; i < m && vTimeLeft(); i++ {
		cmap, f := r.font()
		text := ""
		for k := 0; k < 8; k++ {
			text += r.shown(f)
		}
		d := vNewDoc(r)
		raw := []byte(fmt.Sprintf("%x>", cmap))
		o := d.stream(2, Dictionary{"Filter": Name("ASCIIHexDecode")}, []byte(cmap))
		o.raw = raw
		d.add(1, Dictionary{"ToUnicode": vRef(2)})
		b, _ := d.write(true)
		vCall("NewFont", cmap+" "+text, func() {
			p, err := d.parser(b, "")
			if err != nil {
				vWit("error", "loading fails with %v on %s", err, vShowLong2(string(b)))
				return
			}
			x, _ := p.GetObject(1).Value.(Dictionary)
			if got := NewFont(x).Decode([]byte(text)); got != f.decode(text) {
				vWit("decode", "the map %q decodes %q to %q, specified is %q", cmap, text, got, f.decode(text))
			}
		})
	}
	vDone()
}
