package pdf

import (
	"bytes"
	"compress/zlib"
	"encoding/ascii85"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"
)

// --- encoders, independent of the code under test ----------------------------------

func vFlate(b []byte) []byte {
	var o bytes.Buffer
	z := zlib.NewWriter(&o)
	z.Write(b)
	z.Close()
	return o.Bytes()
}

// vLZW compresses with the variable width codes of PDF; early is the EarlyChange parameter.
func vLZW(b []byte, early int) []byte {
	var out []byte
	acc, nacc := uint64(0), 0
	width := 9
	emit := func(c int) {
		acc = acc<<uint(width) | uint64(c)
		nacc += width
		for nacc >= 8 {
			out = append(out, byte(acc>>uint(nacc-8)))
			nacc -= 8
		}
	}
	dict := map[string]int{}
	next := 258
	emit(256)
	code := func(w string) int {
		if len(w) == 1 {
			return int(w[0])
		}
		return dict[w]
	}
	w := ""
	for _, c := range b {
		x := w + string([]byte{c})
		if len(x) == 1 || dict[x] != 0 {
			w = x
			continue
		}
		emit(code(w))
		dict[x] = next
		next++
		if next+early > 1<<uint(width) {
			width++
		}
		if next >= 4093 {
			emit(256)
			dict = map[string]int{}
			next = 258
			width = 9
		}
		w = string([]byte{c})
	}
	if w != "" {
		emit(code(w))
		next++
		if next+early > 1<<uint(width) {
			width++
		}
	}
	emit(257)
	if nacc > 0 {
		out = append(out, byte(acc<<uint(8-nacc)))
	}
	return out
}

func vA85(b []byte) []byte {
	o := make([]byte, ascii85.MaxEncodedLen(len(b)))
	return append(o[:ascii85.Encode(o, b)], "~>"...)
}

func vRunLength(r *vRand, b []byte) []byte {
	var o []byte
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] && j-i < 128 {
			j++
		}
		if j-i >= 2 {
			o = append(o, byte(257-(j-i)), b[i])
			i = j
			continue
		}
		n := 1 + r.n(128)
		if n > len(b)-i {
			n = len(b) - i
		}
		o = append(append(o, byte(n-1)), b[i:i+n]...)
		i += n
	}
	return append(o, 128)
}

// vBitAt, vBitPut: numbers of n bits at bit position p, most significant bit first.
func vBitAt(b []byte, p, n int) int {
	v := 0
	for i := p; i < p+n; i++ {
		v = v*2 + int(b[i/8]>>uint(7-i%8))&1
	}
	return v
}

func vBitPut(b []byte, p, n, v int) {
	for i := p + n - 1; i >= p; i-- {
		b[i/8] = b[i/8]&^(1<<uint(7-i%8)) | byte(v&1)<<uint(7-i%8)
		v >>= 1
	}
}

// vTiffEncode replaces each component by its difference to the previous pixel.
func vTiffEncode(b []byte, bits, colors, columns int) []byte {
	w := (bits*colors*columns + 7) / 8
	o := append([]byte{}, b...)
	for r := 0; r+w <= len(b); r += w {
		for c := columns - 1; c > 0; c-- {
			for i := 0; i < colors; i++ {
				p := 8*r + (c*colors+i)*bits
				vBitPut(o, p, bits, (vBitAt(b, p, bits)-vBitAt(b, p-colors*bits, bits))&(1<<uint(bits)-1))
			}
		}
	}
	return o
}

func vPngEncode(r *vRand, b []byte, bits, colors, columns int) []byte {
	w := (bits*colors*columns + 7) / 8
	bpp := (bits*colors + 7) / 8
	var o []byte
	up := make([]byte, w)
	for i := 0; i < len(b); i += w {
		row := b[i:]
		if len(row) > w {
			row = row[:w]
		}
		m := r.n(5)
		o = append(o, byte(m))
		for c := range row {
			var a, u, ul int
			u = int(up[c])
			if c >= bpp {
				a, ul = int(row[c-bpp]), int(up[c-bpp])
			}
			x := 0
			switch m {
			case 1:
				x = a
			case 2:
				x = u
			case 3:
				x = (a + u) >> 1
			case 4:
				pa, pb, pc := u-ul, a-ul, a+u-2*ul
				if pa < 0 {
					pa = -pa
				}
				if pb < 0 {
					pb = -pb
				}
				if pc < 0 {
					pc = -pc
				}
				if pa <= pb && pa <= pc {
					x = a
				} else if pb <= pc {
					x = u
				} else {
					x = ul
				}
			}
			o = append(o, row[c]-byte(x))
		}
		up = row
	}
	return o
}

// vParms is a random set of predictor parameters; p, bits, colors, columns are what it means.
func vParms(r *vRand) (d Dictionary, p, bits, colors, columns int) {
	p, bits, colors, columns = 1, 8, 1, 1
	d = Dictionary{}
	if !r.coin(8) {
		p = []int{1, 2, 2, 2, 10, 11, 12, 13, 14, 15, 15}[r.n(11)]
		d["Predictor"] = Number(p)
	}
	if !r.coin(4) {
		bits = []int{1, 2, 4, 8, 16}[r.n(5)]
		d["BitsPerComponent"] = Number(bits)
	}
	if !r.coin(4) {
		colors = 1 + r.n(5)
		d["Colors"] = Number(colors)
	}
	if !r.coin(6) {
		columns = 1 + r.n(20)
		d["Columns"] = Number(columns)
	}
	return
}

func vSmooth(r *vRand, n int) []byte {
	b := r.bytes(n)
	k := r.n(4)
	for i := range b {
		switch k {
		case 0:
			b[i] = byte(i * 3)
		case 1:
			if i > 0 && !r.coin(5) {
				b[i] = b[i-1]
			}
		case 2:
			b[i] = "ab"[b[i]&1]
		}
	}
	return b
}

func TestVerifC12(t *testing.T) {
	n := vPick(20000, 200000)
	vRule("%d random images through a PNG or TIFF encoder (bits 1 2 4 8 16, 1 to 5 colours, 1 to 20 columns, every row method) and ReversePredictor, FlateDecode and LZWDecode, decoded bytes against the original; %d random data and parameters (odd depths, truncated rows, unknown methods, unusable values) against sp_predict", n, n)
	r := vNewRand("C12")
	for i := 0; i < n && vTimeLeft(); i++ {
		d, p, bits, colors, columns := vParms(r)
		w := (bits*colors*columns + 7) / 8
		rows := 1 + r.n(6)
		img := vSmooth(r, w*rows)
		enc := img
		if p == 2 {
			enc = vTiffEncode(img, bits, colors, columns)
		} else if p >= 10 {
			if r.coin(5) {
				img = img[:len(img)-r.n(w)]
			}
			enc = vPngEncode(r, img, bits, colors, columns)
		}
		in := fmt.Sprintf("%v %q", vObjStr(d), enc)
		vCall("predictor", in, func() {
			vBytes("predictor", in, ReversePredictor(append([]byte{}, enc...), d), img)
			if i%4 == 0 {
				vBytes("predictor-flate", in, FlateDecode(vFlate(enc), d), img)
			}
			if i%4 == 1 {
				d["EarlyChange"] = Number(i / 4 % 2)
				vBytes("predictor-lzw", in, LZWDecode(vLZW(enc, i/4%2), d), img)
			}
		})
	}
	num := func(max int) Object {
		switch r.n(8) {
		case 0:
			return Number(0)
		case 1:
			return Number(-1 - r.n(5))
		case 2:
			return Number(int64(1) << uint(r.n(53)))
		case 3:
			return d3(r)
		}
		return Number(1 + r.n(max))
	}
	for i := 0; i < n && vTimeLeft(); i++ {
		d, _, _, _, _ := vParms(r)
		for _, k := range []string{"Predictor", "BitsPerComponent", "Colors", "Columns"} {
			if r.coin(3) {
				d[k] = num(17)
			} else if r.coin(20) {
				delete(d, k)
			}
		}
		b := vSmooth(r, r.n(60))
		for j := range b {
			if r.coin(4) {
				b[j] = byte(r.n(6))
			}
		}
		in := fmt.Sprintf("%v %q", vObjStr(d), b)
		vCall("parameters", in, func() {
			vBytes("parameters", in, ReversePredictor(append([]byte{}, b...), d), sp_predict(append([]byte{}, b...), d))
		})
	}
	vDone()
}

func d3(r *vRand) Object {
	switch r.n(4) {
	case 0:
		return Name("8")
	case 1:
		return String("2")
	case 2:
		return Keyword("null")
	}
	return Number(2.5)
}

// vStreamText is text as it may surround and fill a stream.
func vStreamText(r *vRand, n int) string {
	s := ""
	for i := r.n(n); i > 0; i-- {
		s += r.pick("e", "end", "endstrea", "ends", "stream", "\n", "\r", "\r\n", "\n\n", "\r\r", "x", "\x00", "endobj", "d", "am", "endstrean", "Endstream", "eendstrea")
	}
	return s
}

func TestVerifC08(t *testing.T) {
	n := vPick(40000, 400000)
	vRule("ReadStream (data, position, message) and objects with streams against sp_content: every text of up to %d symbols over line ends, the marker and its prefixes; %d random texts with the marker at and around the edge of the 4096 byte buffer", vPick(4, 5), n)
	one := func(s string, off int) {
		vCall("stream", s, func() {
			p := vParser([]byte(s))
			vAt(p, off)
			got := p.ReadStream(noDecryptor, Array{}, Array{})
			vBytes("stream-data", s, got, sp_content(noDecryptor, Array{}, Array{}, []byte(s), off))
			vIntCheck("stream-position", "the position after the stream", s, int(p.CurrentOffset()), sp_raw_end([]byte(s), off))
			w := ""
			if !sp_hasbody([]byte(s), off) || sp_mark([]byte(s), sp_databegin([]byte(s), off)) < 0 {
				w = "unclosed stream\n"
			}
			vBytes("stream-message", s, vLog(), []byte(w))
		})
	}
	alpha := []string{"\n", "\r", "endstream", "a", "e", "endstrea"}
	var rec func(s string, k int)
	rec = func(s string, k int) {
		one(s, 0)
		if k > 0 {
			for _, a := range alpha {
				rec(s+a, k-1)
			}
		}
	}
	rec("", vPick(5, 6))
	r := vNewRand("C08")
	for i := 0; i < n && vTimeLeft(); i++ {
		s := r.pick("", "", " ", "x") + r.pick("\n", "\r\n", "\r", "\n", "\r\n", "\r", "") + vStreamText(r, 12)
		if r.coin(3) {
			m := 4096 - r.n(30)
			if r.coin(3) {
				m = r.n(9000)
			}
			s += strings.Repeat(r.pick("z", "\n", "e", "\x00"), m) + vStreamText(r, 4)
		}
		if !r.coin(5) {
			s += r.pick("\n", "\r\n", "\r", "") + "endstream" + r.pick("", "\nendobj", "endstream", "\nendstream", "x")
		}
		off := 0
		if r.coin(4) {
			pre := strings.Repeat("q", r.n(20))
			if r.coin(2) {
				pre = strings.Repeat("q", 4080+r.n(20))
			}
			s, off = pre+s, len(pre)
		}
		one(s, off)
		if i%4 == 0 && off < len(s) && strings.IndexByte("\r\n ", s[off]) >= 0 {
			doc := "5 0 obj " + r.pick("<<>>", "<</Length 3>>", "<</Length 99999 /A(endstream)>>", "null ") + r.pick("", " ", "\n", "%c\n") + "stream" + s[off:]
			h := strings.Index(doc, "stream"+s[off:]) + 6
			vCall("object", doc, func() {
				p := vParser([]byte(doc))
				p.Xref[5] = NewXrefEntry(0, 0, XrefTypeIndirectObject)
				o := p.GetObject(5)
				if o.Stream == nil {
					vWit("object-stream-missing", "object 5 has no stream in %s", vShow(doc))
				}
				vBytes("object-stream", doc, o.Stream, sp_content(noDecryptor, Array{}, Array{}, []byte(doc), h))
			})
		}
	}
	vDone()
}

// vEncode applies the inverse of a filter.
func vEncode(r *vRand, f string, b []byte, parms Object) []byte {
	switch f {
	case "ASCIIHexDecode":
		return append([]byte(hex.EncodeToString(b)), '>')
	case "ASCII85Decode":
		return vA85(b)
	case "RunLengthDecode":
		return vRunLength(r, b)
	case "FlateDecode", "LZWDecode":
		d, _ := parms.(Dictionary)
		if d != nil {
			get := func(k string, v int) int {
				if x, ok := d[k].(Number); ok {
					return int(x)
				}
				return v
			}
			p, bits, colors, columns := get("Predictor", 1), get("BitsPerComponent", 8), get("Colors", 1), get("Columns", 1)
			if p == 2 {
				b = vTiffEncode(b, bits, colors, columns)
			} else if p >= 10 {
				b = vPngEncode(r, b, bits, colors, columns)
			}
			if f == "LZWDecode" {
				return vLZW(b, get("EarlyChange", 1))
			}
		} else if f == "LZWDecode" {
			return vLZW(b, 1)
		}
		return vFlate(b)
	}
	return b
}

func TestVerifC13(t *testing.T) {
	n := vPick(10000, 100000)
	vRule("%d random documents whose streams are encoded by independent encoders in chains of up to 4 filters (direct and referenced filter and parameter entries, names and arrays, unknown filters, predictors): data against the original; DecodeStream and ReadStream against sp_decode and sp_content on %d random, truncated and damaged data with random chains", n, n)
	r := vNewRand("C13")
	names := []string{"ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode", "Unknown", "DCTDecode", ""}
	for i := 0; i < n && vTimeLeft(); i++ {
		d := vNewDoc(r)
		d.maxRef = 9
		next := 10
		ref := func(o Object) Object {
			if o != nil && r.coin(4) {
				d.add(next, o)
				next++
				return vRef(next - 1)
			}
			return o
		}
		for k := 1; k <= 3; k++ {
			data := vSmooth(r, r.n(50))
			if r.coin(60) {
				data = vSmooth(r, r.n(6000))
			}
			var fs, ps Array
			raw := data
			for j := r.n(5); j > 0; j-- {
				f := names[r.n(len(names))]
				var parms Object = KEYWORD_NULL
				if r.coin(2) {
					x, p, bits, colors, columns := vParms(r)
					if f == "LZWDecode" && r.coin(2) {
						x["EarlyChange"] = Number(r.n(2))
					}
					if w := (bits*colors*columns + 7) / 8; p == 2 && len(raw)%w != 0 {
						delete(x, "Predictor")
					}
					parms = x
				}
				raw = vEncode(r, f, raw, parms)
				fs = append(Array{Name(f)}, fs...)
				ps = append(Array{parms}, ps...)
			}
			if bytes.Contains(raw, []byte("endstream")) || len(raw) == 0 && len(data) > 0 {
				continue
			}
			dict := Dictionary{"Length": Number(len(raw))}
			if len(fs) == 1 && r.coin(2) {
				dict["Filter"] = ref(fs[0])
				if _, ok := ps[0].(Dictionary); ok {
					dict["DecodeParms"] = ref(ps[0])
				}
			} else if len(fs) > 0 {
				any := false
				for j := range fs {
					if _, ok := ps[j].(Dictionary); ok {
						any = true
					}
					fs[j], ps[j] = ref(fs[j]), ref(ps[j])
				}
				dict["Filter"] = ref(fs)
				if any {
					dict["DecodeParms"] = ref(ps)
				}
			}
			o := d.stream(k, dict, data)
			o.raw = raw
		}
		text, _ := d.write(true)
		in := string(text)
		vCall("document", in, func() {
			p, err := d.parser(text, "")
			if err != nil {
				vWit("load", "loading %s fails: %v", vShow(in), err)
				return
			}
			for _, o := range d.objs {
				if o.has {
					g := p.GetObject(o.num)
					if !bytes.Equal(g.Stream, o.data) || g.Stream == nil {
						vWit("stream", "stream %d (%s) is %q, specified is %q in %s", o.num, vObjStr(o.val), g.Stream, o.data, vShow(in))
					}
				}
			}
		})
	}
	for i := 0; i < n && vTimeLeft(); i++ {
		f := names[r.n(len(names))]
		parms, _, _, _, _ := vParms(r)
		if r.coin(2) {
			parms = Dictionary{}
		}
		if r.coin(3) {
			parms["EarlyChange"] = Number(r.n(2))
		}
		b := vSmooth(r, r.n(40))
		if r.coin(100) {
			b = vSmooth(r, 5000)
		}
		if !r.coin(5) {
			b = vEncode(r, f, b, parms)
		}
		switch r.n(4) {
		case 0:
			b = b[:r.n(len(b)+1)]
		case 1:
			b = append(b, r.bytes(r.n(4))...)
		case 2:
			for j := r.n(3); j > 0 && len(b) > 0; j-- {
				b[r.n(len(b))] = r.b()
			}
		}
		in := fmt.Sprintf("%s %v %q", f, vObjStr(parms), b)
		vCall("filter", in, func() {
			want := sp_decode(f, append([]byte{}, b...), parms)
			vBytes("filter-"+f, in, DecodeStream(f, append([]byte{}, b...), parms), want)
			var fs, ps Array
			for j := r.n(4); j > 0; j-- {
				switch r.n(8) {
				case 0:
					fs = append(fs, Number(1))
				case 1:
					fs = append(fs, KEYWORD_NULL)
				default:
					fs = append(fs, Name(names[r.n(len(names))]))
				}
				if r.coin(2) {
					ps = append(ps, parms)
				} else {
					ps = append(ps, KEYWORD_NULL)
				}
			}
			fs = append(Array{Name(f)}, fs...)
			ps = append(Array{parms}, ps...)
			if r.coin(5) {
				ps = ps[:r.n(len(ps))]
			}
			var x Decryptor = noDecryptor
			if r.coin(2) {
				x = &vDecryptor{}
			}
			s := append([]byte("\n"), b...)
			s = append(s, "\nendstream"...)
			p := vParser(s)
			in := fmt.Sprintf("%s %v %v %q", fmt.Sprintf("%T", x), vObjStr(fs), vObjStr(ps), s)
			vBytes("chain", in, p.ReadStream(x, fs, ps), sp_content(x, fs, ps, s, 0))
		})
	}
	vDone()
}
