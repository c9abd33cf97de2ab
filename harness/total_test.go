package pdf

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var vTokens = []string{"obj", "endobj", "stream\n", "endstream", "xref\n", "trailer", "startxref", "<<", ">>", "[", "]", "(", ")", "<", ">", "/", "%", "#", "\\", "\\8", "\\7", "R", " 0 R", "1 0 R", "2 0 R", "n", "f",
	"0", "-1", "9999999999", "99999999999999999999", "4294967295", "-9223372036854775808", "1e9", ".", "+", "-", "--5", "true", "null", "\n", "\r", "\x00", "\xff", " ",
	"/Length", "/Filter", "/Type", "/XRef", "/ObjStm", "/W", "/W [1 2 1]", "/W [0 0 0]", "/W [-1 8 9]", "/Index [0 99999999]", "/Index [-5 5]", "/Size -1", "/Size 99999999", "/Prev 0", "/Prev 9", "/Prev -7", "/Root 1 0 R",
	"/Encrypt", "/Encrypt <</Filter /Standard>>", "/V 4", "/R 4", "/CF 3 0 R", "/StmF /X", "/Kids", "/Kids 1 0 R", "/Kids [1 0 R]", "/Pages 1 0 R", "/Names", "/EmbeddedFiles 1 0 R", "/URLS 2 0 R", "/DecodeParms", "/DecodeParms <</Predictor 12 /Columns 0>>",
	"/Predictor 2", "/Predictor 15", "/Columns 99999999999", "/Colors -1", "/BitsPerComponent 16", "/BitsPerComponent 64", "/EarlyChange 0", "/Crypt", "/FlateDecode", "/LZWDecode", "/ASCII85Decode", "/RunLengthDecode", "/ASCIIHexDecode",
	"/Contents 1 0 R", "/Resources 1 0 R", "/Font 1 0 R", "/ToUnicode 1 0 R", "BT", "ET", "Tf", "Tj", "TJ", "beginbfrange", "999999999 beginbfrange", "-1 beginbfchar", "<00> <ffffffff> <00>", "<ffffffffffffffffff>", "endobj 5 0 obj", "0 65535 f"}

// mutate damages a file.
func (r *vRand) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.n(6); k > 0 && len(b) > 0; k-- {
		i := r.n(len(b))
		switch r.n(9) {
		case 0:
			b[i] = r.b()
		case 1:
			b[i] ^= 1 << uint(r.n(8))
		case 2:
			j := i + r.n(1+r.n(40))
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 3, 4, 5:
			t := vTokens[r.n(len(vTokens))]
			b = append(b[:i:i], append([]byte(" "+t+r.pick("", " ", "\n")), b[i:]...)...)
		case 6:
			j := r.n(len(b))
			if j < i {
				i, j = j, i
			}
			if j-i > 200 {
				j = i + 200
			}
			at := r.n(len(b))
			b = append(b[:at:at], append(append([]byte{}, b[i:j]...), b[at:]...)...)
		case 7:
			if r.coin(4) {
				b = b[:i]
			}
		case 8:
			// another number
			for i < len(b) && (b[i] < '0' || b[i] > '9') {
				i++
			}
			j := i
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
			b = append(b[:i:i], append([]byte(r.pick("0", "1", "2", "-1", "99999999999", "4096", "65536", "2147483648", "9223372036854775807", "18446744073709551616")), b[j:]...)...)
		}
	}
	if len(b) > 60000 {
		b = b[:60000]
	}
	return b
}

// tangle is a document whose special keys lead anywhere.
func vTangle(r *vRand) []byte {
	d := vNewDoc(r)
	n := 2 + r.n(8)
	d.maxRef = n + 1
	keys := []string{"Kids", "Names", "Pages", "EmbeddedFiles", "URLS", "A", "AA", "OpenAction", "XFA", "JS", "URI", "Base", "F", "EF", "FS", "P", "Win", "S", "Resources", "Font", "F1", "ToUnicode", "Contents", "Filter", "DecodeParms", "Type", "Length", "W", "Index", "Prev", "Size", "XRefStm"}
	var val func(depth int) Object
	dict := func(depth int) Dictionary {
		x := Dictionary{}
		for k := r.n(7); k > 0; k-- {
			x[keys[r.n(len(keys))]] = val(depth - 1)
		}
		return x
	}
	val = func(depth int) Object {
		if depth <= 0 || r.coin(2) {
			if r.coin(6) {
				return Name(r.pick("FlateDecode", "Crypt", "URL", "Launch", "XRef", "EmbeddedFile", "LZWDecode", "ASCIIHexDecode", "Identity"))
			}
			if r.coin(6) {
				return d.object(0)
			}
			return vRef(1 + r.n(n+1))
		}
		if r.coin(2) {
			a := Array{}
			for k := r.n(4); k > 0; k-- {
				a = append(a, val(depth-1))
			}
			return a
		}
		return dict(depth - 1)
	}
	for i := 1; i <= n; i++ {
		switch r.n(4) {
		case 0:
			s := r.pick("BT /F1 1 Tf (a) Tj [(b) 1 0 R] TJ ET", "2 beginbfrange <00> <05> <41> <06> <ff> <0041>", "1 beginbfchar <0001> <41> endbfchar", "x", "")
			d.stream(i, dict(2), []byte(s))
		case 1:
			d.add(i, val(3))
		default:
			d.add(i, dict(3))
		}
	}
	if r.coin(3) {
		d.trailer["Prev"] = Number(r.n(400))
	}
	if r.coin(6) {
		d.trailer["Encrypt"] = val(2)
		d.trailer["ID"] = val(2)
	}
	b, _ := d.write(!r.coin(3))
	return b
}

func vAnyFile(r *vRand) ([]byte, string) {
	switch r.n(9) {
	case 0:
		b, _ := vRichDoc(r, []string{"a", "../b"}).write(r.coin(2))
		return b, ""
	case 1:
		_, b, _ := vMakeFile(r, r.n(3))
		return b, ""
	case 2, 3:
		pw := vPassword(r)
		c := vNewCrypt(r)
		d := vCryptDoc(r, c, pw)
		if r.coin(2) {
			b, _ := d.writeStream()
			return b, pw
		}
		b, _ := d.write(true)
		return b, pw
	case 4, 5:
		return vTangle(r), ""
	case 6:
		d := vNewDoc(r)
		d.maxRef = 30
		d.add(1, Dictionary{"Pages": d.tree(10, 1+r.n(9), false), "EmbeddedFiles": d.tree(50, 1+r.n(9), true), "URLS": d.tree(90, 1+r.n(5), true)})
		b, _ := d.write(r.coin(2))
		return b, ""
	case 7:
		d := vNewDoc(r)
		cmap, f := r.font()
		s, _ := d.content(map[string]*vFont{"F1": f}, []string{"F1"})
		d.stream(2, Dictionary{}, []byte(s))
		d.stream(3, Dictionary{}, []byte(cmap))
		parms := Dictionary{"Predictor": Number(r.n(17)), "Columns": Number(r.n(12)), "Colors": Number(r.n(6)), "BitsPerComponent": Number([]int{1, 2, 4, 8, 16, 3}[r.n(6)])}
		f2 := r.pick("FlateDecode", "LZWDecode")
		data := vFlate(r.bytes(r.n(60)))
		if f2 == "LZWDecode" {
			data = vLZW(r.bytes(r.n(60)), 1)
		}
		d.stream(4, Dictionary{"Filter": Name(f2), "DecodeParms": parms}, data)
		d.add(1, Dictionary{"Pages": vRef(5)})
		d.add(5, Dictionary{"Contents": Array{vRef(2), vRef(4)}, "Resources": Dictionary{"Font": Dictionary{"F1": Dictionary{"ToUnicode": vRef(3)}}}})
		b, _ := d.write(true)
		return b, ""
	}
	s := ""
	for k := r.n(40); k > 0; k-- {
		s += vTokens[r.n(len(vTokens))] + " "
	}
	return []byte(s), ""
}

func TestVerifC01(t *testing.T) { vTotality("C01", vPick(9000, 120000), true) }
func TestVerifC02(t *testing.T) { vTotality("C02", vPick(7000, 100000), false) }

func vTotality(seed string, n int, single bool) {
	r := vNewRand(seed)
	top := filepath.Join(vWorkDir(), "total")
	os.MkdirAll(top, 0755)
	input, out := filepath.Join(top, "in.pdf"), filepath.Join(top, "out")
	vRule("Parse on %d documents (reports, encryption, cross-reference sections, trees, text, tangled references, token soup), most of them damaged: it returns, without a panic, within 25 s", n)
	for i := 0; i < n && vTimeLeft(); i++ {
		b, pw := vAnyFile(r)
		if !r.coin(4) {
			b = r.mutate(b)
		}
		if r.coin(6) {
			pw = r.pick("", "x", "\xff", strings.Repeat("long", 20))
		}
		os.WriteFile(input, b, 0644)
		vCall("Parse", string(b), func() { Parse(input, pw, out) })
	}
	os.RemoveAll(top)
	if !single {
		vCycles(r)
		vDone()
		return
	}
	m := vPick(60000, 600000)
	vRule("%d calls of single decoders, readers and accessors with random data", m)
	for i := 0; i < m && vTimeLeft(); i++ {
		data := r.bytes(r.n(60))
		if r.coin(3) {
			data = r.from("<>()[]{}/%# \n\r\x00\\0123456789abcdefRnzu~.+-", r.n(40))
		}
		if r.coin(6) {
			s := ""
			for k := r.n(12); k > 0; k-- {
				s += vTokens[r.n(len(vTokens))] + r.pick("", " ")
			}
			data = []byte(s)
		}
		parms := Dictionary{}
		for k := r.n(5); k > 0; k-- {
			v := Object(Number([]float64{-1, 0, 1, 2, 3, 8, 10, 15, 16, 1e18, -1e18, 0.5, 4096}[r.n(13)]))
			if r.coin(8) {
				v = d3(r)
			}
			parms[r.pick("Predictor", "Columns", "Colors", "BitsPerComponent", "EarlyChange")] = v
		}
		in := fmt.Sprintf("%x %v", data, parms)
		switch r.n(12) {
		case 0:
			vCall("ASCIIHexDecode", in, func() { ASCIIHexDecode(data) })
		case 1:
			vCall("ASCII85Decode", in, func() { ASCII85Decode(data) })
		case 2:
			vCall("RunLengthDecode", in, func() { RunLengthDecode(data) })
		case 3:
			if r.coin(2) {
				data = vFlate(data)
			}
			vCall("FlateDecode", in, func() { FlateDecode(data, parms) })
		case 4:
			if r.coin(2) {
				data = vLZW(data, 1)
			}
			vCall("LZWDecode", in, func() { LZWDecode(data, parms) })
		case 5:
			vCall("ReversePredictor", in, func() { ReversePredictor(data, parms) })
		case 6:
			f := r.pick("ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode", "Crypt", "", "x")
			vCall("DecodeStream", f+" "+in, func() { DecodeStream(f, data, parms) })
		case 7:
			p := NewParser(bytes.NewReader(data), nil)
			k := r.n(12)
			vCall("reader", fmt.Sprint(k, " ", in), func() {
				switch k {
				case 0:
					p.ReadObject(noDecryptor)
				case 1:
					p.ReadArray(noDecryptor)
				case 2:
					p.ReadDictionary(noDecryptor)
				case 3:
					p.ReadHexString(noDecryptor)
				case 4:
					p.ReadInt()
				case 5:
					p.ReadKeyword()
				case 6:
					p.ReadName()
				case 7:
					p.ReadNumber()
				case 8:
					p.ReadStream(noDecryptor, Array{Name("FlateDecode"), Number(1), Name("LZWDecode")}, Array{parms, Number(2)})
				case 9:
					p.ReadString(noDecryptor)
				case 10:
					p.ReadCommand()
				case 11:
					p.ReadObjectHeader()
				}
			})
		case 8:
			vCall("Load", in, func() {
				p := NewParser(bytes.NewReader(data), nil)
				p.Load("x")
				for k := -1; k < 5; k++ {
					p.GetObject(k)
				}
			})
		case 9:
			d := vNewDoc(r)
			d.maxRef = 5
			a := Array{}
			for k := r.n(4); k > 0; k-- {
				a = append(a, d.object(2))
			}
			p := NewParser(bytes.NewReader(data), nil)
			var bind func(o Object) Object
			bind = func(o Object) Object {
				switch x := o.(type) {
				case *Reference:
					return NewReference(p, x.Number, x.Generation)
				case Array:
					for i := range x {
						x[i] = bind(x[i])
					}
				case Dictionary:
					for k := range x {
						x[k] = bind(x[k])
					}
				}
				return o
			}
			bind(a)
			k := r.n(8) - 3
			vCall("Array", vObjStr(a)+fmt.Sprint(" ", k), func() {
				g := vArrGet(a, k)
				g.obj()
				g.arr()
				g.dict()
				g.nam()
				g.str()
				g.byt()
				g.boo()
				g.num()
				g.i()
				g.i64()
				g.strm()
				_ = a.String()
			})
			x := Dictionary{}
			for _, o := range a {
				x[r.pick("K", "L", "Kids", "Names")] = o
			}
			vCall("Dictionary", vObjStr(x), func() {
				for _, key := range []string{"K", "Kids", "absent"} {
					g := vDictGet(x, key)
					g.obj()
					g.arr()
					g.dict()
					g.nam()
					g.str()
					g.byt()
					g.boo()
					g.num()
					g.i()
					g.i64()
					g.strm()
					x.GetReference(key)
					x.GetNameTreeMap(key)
					x.GetPageTree(key)
				}
				_ = x.String()
				var none Dictionary
				none.GetObject("x")
				none.GetPageTree("x")
			})
		case 10:
			key := r.bytes([]int{5, 16, 7}[r.n(3)])
			n, g := r.n(1<<24), r.n(65536)
			vCall("Decrypt", in, func() {
				(&CryptFilterRC4{key}).NewDecryptor(n, g).Decrypt(append([]byte{}, data...))
				(&CryptFilterAES{key}).NewDecryptor(n, g).Decrypt(append([]byte{}, data...))
				noDecryptor.Decrypt(data)
			})
		case 11:
			vCall("SecurityHandler", in, func() {
				d := vNewDoc(r)
				d.maxRef = 5
				x := Dictionary{"Encrypt": Dictionary{"Filter": Name("Standard"), "V": Number([]int{1, 2, 4}[r.n(3)]), "R": Number(2 + r.n(3)), "O": d3(r), "U": String(data), "P": Number(-r.n(5)), "Length": d3(r), "CF": Dictionary{"StdCF": Dictionary{"CFM": Name(r.pick("V2", "AESV2", "None")), "Length": d3(r)}}}, "ID": Array{String("x")}}
				NewSecurityHandler().Init([]byte(data), x)
				NewSecurityHandler().Init(nil, Dictionary{})
			})
		}
	}
	vDone()
}

// vCycles: each kind of cycle on its own, and chains that share parts.
func vCycles(r *vRand) {
	files := []string{
		"1 0 obj 1 0 R endobj", "1 0 obj 2 0 R endobj 2 0 obj 1 0 R endobj",
		"1 0 obj <</Pages 1 0 R /Kids [1 0 R 2 0 R]>> endobj 2 0 obj <</Kids 2 0 R>> endobj",
		"1 0 obj <</EmbeddedFiles 1 0 R /Kids [1 0 R 2 0 R]>> endobj 2 0 obj <</Kids [1 0 R 2 0 R]>> endobj",
		"1 0 obj <</URLS 2 0 R>> endobj 2 0 obj <</Kids 3 0 R>> endobj 3 0 obj [<</Kids 3 0 R>> <</Kids 3 0 R>>] endobj",
		"1 0 obj <</Filter 1 0 R /DecodeParms 1 0 R>> stream\nx\nendstream endobj",
		"1 0 obj <</Length 1 0 R>> stream\nx\nendstream endobj",
		"1 0 obj <</Type 1 0 R>> stream\nx\nendstream endobj",
		"1 0 obj <</Filter /FlateDecode /DecodeParms <</Predictor 1 0 R /Columns 2 0 R>>>> stream\n" + string(vFlate([]byte("abc"))) + "\nendstream endobj 2 0 obj <</Filter [2 0 R 1 0 R]>> stream\ny\nendstream endobj",
		"1 0 obj <</A 1 0 R /AA 1 0 R /F 1 0 R /Win 1 0 R /EF 1 0 R /URI 1 0 R /Base 1 0 R /XFA [1 0 R] /JS 1 0 R /Names [1 0 R]>> endobj",
		"1 0 obj <</Pages 2 0 R>> endobj 2 0 obj <</Kids [3 0 R 3 0 R 3 0 R]>> endobj 3 0 obj <</Kids [2 0 R 3 0 R] /Contents 3 0 R /Resources 3 0 R /Font 3 0 R>> endobj",
	}
	// many shared children: exponential unless each is visited once
	s := "1 0 obj <</Pages 2 0 R /EmbeddedFiles 2 0 R /URLS 2 0 R>> endobj\n"
	for i := 2; i < 60; i++ {
		s += fmt.Sprintf("%d 0 obj <</Kids [%d 0 R %d 0 R %d 0 R]>> endobj\n", i, i+1, i+1, i+2)
	}
	files = append(files, s)
	s = "1 0 obj <</URLS 2 0 R /EmbeddedFiles 2 0 R /Pages 2 0 R>> endobj\n"
	for i := 2; i < 60; i++ {
		s += fmt.Sprintf("%d 0 obj <</Kids %d 0 R>> endobj %d 0 obj [<</Kids [%d 0 R]>> <</Kids [%d 0 R]>> %d 0 R] endobj\n", i, i+100, i+100, i+1, i+1, i+1)
	}
	files = append(files, s)
	s = ""
	for i := 1; i < 3000; i++ {
		s += fmt.Sprintf("%d 0 obj %d 0 R endobj\n", i, i+1)
	}
	files = append(files, s+"3000 0 obj 1 0 R endobj")
	for i, f := range files {
		for _, tail := range []string{"", "\nxref\n0 0\ntrailer <</Prev 9>>\nstartxref\n%d\n%%%%EOF", "\nxref\n0 0\ntrailer <</Prev %d>>\nstartxref\n%d\n%%%%EOF"} {
			text := "%PDF-1.4\n" + f
			if tail != "" {
				at := len(text) + 1
				text += strings.ReplaceAll(strings.ReplaceAll(tail, "%d", fmt.Sprint(at)), "%%%%", "%%")
			}
			vCall("cycle", fmt.Sprint(i, " ", text), func() {
				dir := filepath.Join(vWorkDir(), "cyc")
				os.MkdirAll(dir, 0755)
				os.WriteFile(filepath.Join(dir, "in.pdf"), []byte(text), 0644)
				Parse(filepath.Join(dir, "in.pdf"), "", filepath.Join(dir, "out"))
				os.RemoveAll(dir)
			})
		}
	}
	// xref sections that name each other
	k := vPick(300, 3000)
	vRule("%d sets of cross-reference tables and streams whose Prev entries name any of them", k)
	for i := 0; i < k && vTimeLeft(); i++ {
		_, b, _ := vMakeFile(r, 0)
		for j := 0; j < 4; j++ {
			at := bytes.Index(b, []byte("/Prev "))
			if at < 0 {
				break
			}
			end := at + 6
			for end < len(b) && b[end] >= '0' && b[end] <= '9' {
				end++
			}
			pos := []int{}
			for p := 0; p < len(b); {
				q := bytes.Index(b[p:], []byte("xref\n"))
				if q < 0 {
					break
				}
				pos = append(pos, p+q)
				p += q + 5
			}
			if len(pos) > 0 {
				num := fmt.Sprint(pos[r.n(len(pos))])
				b = append(b[:at:at], append([]byte("/PREV "+num), b[end:]...)...)
			}
		}
		b = bytes.ReplaceAll(b, []byte("/PREV"), []byte("/Prev"))
		vCall("Load", string(b), func() {
			p := NewParser(bytes.NewReader(b), nil)
			p.Load("")
			for n := range p.Xref {
				p.GetObject(n)
			}
		})
	}
}
