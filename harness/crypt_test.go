package pdf

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// The standard security handler, written from the PDF specification.

const vPad = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"

type vCrypt struct {
	v, r, n   int // n: key length in bytes
	o, id     []byte
	p         int32
	meta      bool
	filters   map[string]string // name -> V2, AESV2, None
	stm, str  string
	eef       string
	haveStm   bool
	haveStr   bool
	haveEef   bool
	cfLength  int
	lengthKey Object
}

func (c *vCrypt) key(pw string, n int) []byte {
	s := (pw + vPad)[:32]
	h := s + string(c.o) + string([]byte{byte(c.p), byte(c.p >> 8), byte(c.p >> 16), byte(c.p >> 24)}) + string(c.id)
	if c.r >= 4 && !c.meta {
		h += "\xff\xff\xff\xff"
	}
	k := md5.Sum([]byte(h))
	if c.r >= 3 {
		for i := 0; i < 50; i++ {
			k = md5.Sum(k[:n])
		}
	}
	return append([]byte{}, k[:n]...)
}

func vRC4(key, b []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(b))
	c.XORKeyStream(o, b)
	return o
}

func (c *vCrypt) u(pw string, r *vRand) []byte {
	k := c.key(pw, c.n)
	if c.r == 2 {
		return vRC4(k, []byte(vPad))
	}
	h := md5.Sum([]byte(vPad + string(c.id)))
	x := h[:]
	for i := 0; i < 20; i++ {
		t := make([]byte, len(k))
		for j := range k {
			t[j] = k[j] ^ byte(i)
		}
		x = vRC4(t, x)
	}
	return append(append([]byte{}, x...), r.bytes(16)...)
}

// encrypt data of an object with a method.
func (c *vCrypt) encrypt(r *vRand, pw, method string, o *vIO, b []byte) []byte {
	if method == "None" {
		return b
	}
	n := c.n
	if method == "AESV2" {
		n = 16
	}
	k := append(c.key(pw, n), byte(o.num), byte(o.num>>8), byte(o.num>>16), byte(o.gen), byte(o.gen>>8))
	if method == "AESV2" {
		k = append(k, "sAlT"...)
	}
	h := md5.Sum(k)
	m := n + 5
	if m > 16 {
		m = 16
	}
	if method == "V2" {
		return vRC4(h[:m], b)
	}
	blk, err := aes.NewCipher(h[:m])
	if err != nil {
		panic(err)
	}
	iv := r.bytes(16)
	pad := 16 - len(b)%16
	x := append(append([]byte{}, b...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(x, x)
	return append(iv, x...)
}

func (c *vCrypt) method(name string, have bool) string {
	if !have || name == "Identity" {
		return "None"
	}
	return c.filters[name]
}

func (c *vCrypt) strings() string {
	if c.r < 4 {
		return "V2"
	}
	return c.method(c.str, c.haveStr)
}

func (c *vCrypt) streams() string {
	if c.r < 4 {
		return "V2"
	}
	return c.method(c.stm, c.haveStm)
}

func (c *vCrypt) files() string {
	if c.r >= 4 && c.haveEef {
		return c.method(c.eef, true)
	}
	return c.streams()
}

func vNewCrypt(r *vRand) *vCrypt {
	c := &vCrypt{r: 2 + r.n(3), meta: true, filters: map[string]string{}, o: r.bytes(32), id: r.bytes(r.n(20)), p: int32(r.u64())}
	switch c.r {
	case 2:
		c.v, c.n = 1, 5
		if r.coin(3) {
			c.lengthKey = Number(128) // has no meaning here
		}
	case 3:
		c.v, c.n = 2, 5+r.n(12)
		c.lengthKey = Number(8 * c.n)
		if c.n == 5 && r.coin(2) {
			c.lengthKey = nil
		}
		if r.coin(6) {
			c.v, c.n = 1, 5
		}
	case 4:
		c.v, c.n = 4, 16
		if r.coin(4) {
			c.n = 5 + r.n(12)
		}
		c.lengthKey = Number(8 * c.n)
		c.meta = !r.coin(3)
		for _, k := range []string{"StdCF", "A", "B", "C"} {
			if r.coin(3) {
				continue
			}
			c.filters[k] = "V2"
			if r.coin(6) {
				c.filters[k] = "None"
			} else if c.n == 16 && !r.coin(3) {
				c.filters[k] = "AESV2"
			}
		}
		names := []string{"Identity"}
		for k := range c.filters {
			names = append(names, k, k)
		}
		sort.Strings(names)
		c.stm, c.haveStm = names[r.n(len(names))], !r.coin(6)
		c.str, c.haveStr = names[r.n(len(names))], !r.coin(6)
		c.eef, c.haveEef = names[r.n(len(names))], r.coin(2)
		c.cfLength = r.n(3)
	}
	return c
}

// dict is the encryption dictionary; ref makes some entries indirect.
func (c *vCrypt) dict(r *vRand, pw string, ref func(o Object) Object) Dictionary {
	d := Dictionary{"Filter": Name("Standard"), "V": ref(Number(c.v)), "R": ref(Number(c.r)), "O": String(c.o), "U": String(c.u(pw, r)), "P": Number(c.p)}
	if r.coin(3) {
		d["P"] = Number(uint32(c.p))
	}
	if c.lengthKey != nil {
		d["Length"] = ref(c.lengthKey)
	}
	if c.r == 4 {
		cf := Dictionary{}
		for k, m := range c.filters {
			f := Dictionary{"CFM": ref(Name(m)), "Type": Name("CryptFilter"), "AuthEvent": Name("DocOpen")}
			switch {
			case m == "AESV2" && c.cfLength == 1:
				f["Length"] = Number(16)
			case c.cfLength == 1:
				f["Length"] = Number(c.n)
			case c.cfLength == 2:
				f["Length"] = ref(Number(8 * c.n))
			}
			cf[k] = ref(f)
		}
		d["CF"] = ref(cf)
		if c.haveStm {
			d["StmF"] = ref(Name(c.stm))
		}
		if c.haveStr {
			d["StrF"] = ref(Name(c.str))
		}
		if c.haveEef {
			d["EFF"] = ref(Name(c.eef))
		}
		if !c.meta {
			d["EncryptMetadata"] = ref(Keyword("false"))
		} else if r.coin(2) {
			d["EncryptMetadata"] = Keyword("true")
		}
	} else if r.coin(4) {
		d["EncryptMetadata"] = Keyword("false") // has no meaning before revision 4
	}
	return d
}

// vCryptDoc is a random encrypted document; the model holds the decrypted objects.
func vCryptDoc(r *vRand, c *vCrypt, pw string) *vDoc {
	d := vNewDoc(r)
	d.maxRef = 6
	next := 200
	ref := func(o Object) Object {
		if r.coin(10) {
			x := d.add(next, o)
			x.enc = true
			next++
			return vRef(x.num)
		}
		return o
	}
	d.crypt = func(o *vIO, s []byte) []byte { return c.encrypt(r, pw, c.strings(), o, s) }
	nums := []int{1, 2, 3, 255 + r.n(3), 256 + 10 + r.n(60000), 65530 + r.n(20), 70000 + r.n(1 << 22)}
	for i, n := range nums {
		gen := 0
		if r.coin(3) {
			gen = []int{1, 255, 256, 65535, r.n(65536)}[r.n(5)]
		}
		if d.by[n] != nil {
			continue
		}
		switch i % 3 {
		case 0:
			o := d.add(n, Dictionary{"S": String(r.bytes(r.n(40))), "T": Array{String(r.bytes(r.n(20))), Dictionary{"Q": String(r.bytes(16))}}, "X": d.object(2)})
			for k := r.n(4); k > 0; k-- {
				v := Object(String(r.bytes(r.n(20))))
				if r.coin(3) {
					v = d.object(2)
				} else if r.coin(4) {
					v = Array{v, Array{String(r.bytes(r.n(9))), Number(1)}}
				}
				o.val.(Dictionary)[r.pick("Length", "Type", "Contents", "ID", "O", "U", "P", "Title", "Author", "Filter", "CreationDate", "F", "UF", "JS", "URI", "Lang", "V", "CF", "Kids", "Parent", "Names", "Encrypt", "Root", "Info", "Subtype")] = v
			}
			o.gen, o.enc = gen, true
		case 1:
			o := d.add(n, String(r.bytes(r.n(50))))
			o.gen, o.enc = gen, true
		default:
			data := r.bytes(r.n(60))
			dict := Dictionary{"D": String(r.bytes(r.n(9)))}
			m := c.streams()
			if r.coin(3) {
				dict["Type"] = Name("EmbeddedFile")
				m = c.files()
			} else if r.coin(3) {
				dict["Type"] = Name(r.pick("Metadata", "XObject", "embeddedfile"))
			}
			raw := data
			flate := r.coin(2)
			if flate {
				raw = vFlate(raw)
			}
			over := false
			if c.r == 4 && r.coin(3) {
				over = true
				fname := "Identity"
				for k := range c.filters {
					if r.coin(2) {
						fname = k
						break
					}
				}
				parms := Dictionary{"Type": Name("CryptFilterDecodeParms"), "Name": Name(fname)}
				if fname == "Identity" && r.coin(2) {
					parms = Dictionary{}
				}
				m = c.method(fname, true)
				if flate {
					dict["Filter"] = Array{Name("Crypt"), Name("FlateDecode")}
					// parameters of the crypt filter are not those of the next one
					if r.coin(2) {
						parms["Predictor"], parms["Columns"] = Number(12), Number(3)
					}
					switch r.n(4) {
					case 0:
						dict["DecodeParms"] = Array{parms, KEYWORD_NULL}
					case 1:
						dict["DecodeParms"] = Array{parms}
					case 2:
						dict["DecodeParms"] = parms
					default:
						for len(data)%4 > 0 {
							data = append(data, 'x')
						}
						raw = vFlate(vPngEncode(r, data, 8, 1, 4))
						dict["DecodeParms"] = Array{parms, Dictionary{"Predictor": Number(15), "Columns": Number(4)}}
					}
				} else if r.coin(2) {
					dict["Filter"] = Name("Crypt")
					dict["DecodeParms"] = parms
				} else {
					dict["Filter"] = Array{Name("Crypt")}
					dict["DecodeParms"] = Array{parms}
				}
			}
			if flate && !over {
				dict["Filter"] = Name("FlateDecode")
			}
			o := d.stream(n, dict, data)
			o.gen, o.enc = gen, true
			o.raw = c.encrypt(r, pw, m, o, raw)
			if bytes.Contains(o.raw, []byte("endstream")) {
				o.raw, o.has = nil, false
			}
		}
	}
	enc := c.dict(r, pw, ref)
	d.trailer["ID"] = Array{String(c.id), String(r.bytes(16))}
	if r.coin(2) {
		d.add(99, enc)
		d.trailer["Encrypt"] = vRef(99)
	} else {
		d.trailer["Encrypt"] = enc
	}
	return d
}

func vPassword(r *vRand) string {
	switch r.n(5) {
	case 0:
		return ""
	case 1:
		return string(r.bytes(r.n(45)))
	case 2:
		return strings.Repeat("p", 30+r.n(5))
	}
	return string(r.from("abcXYZ019 é", 1+r.n(12)))
}

func TestVerifC17(t *testing.T) {
	n := vPick(6000, 60000)
	vRule("every string and stream of %d random documents encrypted by an independent implementation of the standard security handler (revisions 2 to 4, RC4 and AES, string, stream and embedded file filters, Crypt filter overrides, identity, indirect and direct encryption dictionary, tables and cross-reference streams, object numbers beyond 16 bits)", n)
	r := vNewRand("C17")
	for i := 0; i < n && vTimeLeft(); i++ {
		c := vNewCrypt(r)
		pw := vPassword(r)
		d := vCryptDoc(r, c, pw)
		var text []byte
		xnum := 0
		if r.coin(3) {
			text, xnum = d.writeStream()
		} else {
			text, _ = d.write(true)
		}
		in := string(text)
		what := fmt.Sprintf("%+v password %q", *c, pw)
		vCall("document", in, func() {
			p, err := d.parser(text, pw)
			if err != nil {
				vWit("load", "loading fails: %v (%s) in %s", err, what, vShow(in))
				return
			}
			for _, o := range d.objs {
				g := p.GetObject(o.num)
				if !vObjEq(g.Value, o.val) {
					vWit("strings", "object %d %d is %s, specified is %s (%s) in %s", o.num, o.gen, vObjStr(g.Value), vObjStr(o.val), what, vShow(in))
				}
				if o.has && !bytes.Equal(g.Stream, o.data) {
					vWit("stream", "stream %d %d (%s) is %q, specified is %q (%s) in %s", o.num, o.gen, vObjStr(o.val), g.Stream, o.data, what, vShow(in))
				}
			}
			if xnum > 0 {
				g, _ := p.GetObject(xnum).Value.(Dictionary)
				if !vObjEq(g["ID"], d.trailer["ID"]) {
					vWit("xref-stream", "the cross-reference stream %d is %s (%s) in %s", xnum, vObjStr(g), what, vShow(in))
				}
			}
		})
	}
	// strings the file ends in, or that hold what is no string
	for i := 0; i < n && vTimeLeft(); i++ {
		c := vNewCrypt(r)
		pw := vPassword(r)
		d := vNewDoc(r)
		d.add(99, c.dict(r, pw, func(o Object) Object { return o }))
		d.trailer["ID"] = Array{String(c.id), String(r.bytes(16))}
		d.trailer["Encrypt"] = vRef(99)
		text, _ := d.write(true)
		o := &vIO{num: 1 + r.n(90), gen: r.n(3), enc: true}
		want := String(r.bytes(r.n(40)))
		sec := c.encrypt(r, pw, c.strings(), o, []byte(want))
		tail := ""
		if r.coin(2) {
			tail = fmt.Sprintf("<%x", sec)
		} else {
			tail = "("
			for _, b := range sec {
				tail += fmt.Sprintf("\\%03o", b)
			}
		}
		switch r.n(4) {
		case 0:
			tail = "[" + tail
		case 1:
			tail = "<</S " + tail
		}
		in := string(text) + fmt.Sprintf("%d %d obj ", o.num, o.gen) + tail
		vCall("unfinished", in, func() {
			p, err := d.parser([]byte(in), pw)
			if err != nil {
				return
			}
			v := p.GetObject(o.num).Value
			if a, ok := v.(Array); ok && len(a) > 0 {
				v = a[0]
			} else if m, ok := v.(Dictionary); ok {
				v = m["S"]
			}
			if s, ok := v.(String); !ok || s != want {
				vWit("unfinished", "the string object %d %d ends the file with is %s, specified is %s in %s", o.num, o.gen, vObjStr(v), vObjStr(want), vShow(in))
			}
		})
	}
	vDone()
}

// writeStream is write with a cross-reference stream; its object number is returned.
func (d *vDoc) writeStream() ([]byte, int) {
	var b bytes.Buffer
	b.WriteString("%PDF-1.7\n")
	off := map[int]int{}
	max := 0
	for _, o := range d.objs {
		off[o.num] = b.Len()
		b.WriteString(d.body(o))
		if o.num > max {
			max = o.num
		}
	}
	x := max + 1
	at := b.Len()
	off[x] = at
	var nums []int
	for n := range off {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	index := Array{}
	var data []byte
	for _, n := range nums {
		index = append(index, Number(n), Number(1))
		g := 0
		if o := d.by[n]; o != nil {
			g = o.gen
		}
		data = append(data, 1, byte(off[n]>>16), byte(off[n]>>8), byte(off[n]), byte(g>>8), byte(g))
	}
	dict := Dictionary{"Type": Name("XRef"), "W": Array{Number(1), Number(3), Number(2)}, "Index": index, "Size": Number(x + 1), "Filter": Name("FlateDecode")}
	for k, v := range d.trailer {
		dict[k] = v
	}
	fmt.Fprintf(&b, "%d 0 obj\n%s\nstream\n%s\nendstream\nendobj\nstartxref\n%d\n%%%%EOF\n", x, d.ser(dict, nil), vFlate(data), at)
	return b.Bytes(), x
}

func TestVerifC16(t *testing.T) {
	n := vPick(6000, 60000)
	vRule("Load of %d random documents with the right, a wrong, an equivalent and a truncated password, with missing entries, wrong types and unsupported schemes, against an independent implementation of the check; a string encrypted with the file key must decrypt; Parse must return the error and extract nothing", n)
	r := vNewRand("C16")
	dir := filepath.Join(vWorkDir(), "c16")
	os.MkdirAll(dir, 0755)
	for i := 0; i < n && vTimeLeft(); i++ {
		c := vNewCrypt(r)
		pw := vPassword(r)
		d := vNewDoc(r)
		d.tight = true
		plain := String(r.bytes(1 + r.n(30)))
		o := d.add(3, plain)
		o.enc = true
		d.crypt = func(o *vIO, s []byte) []byte { return c.encrypt(r, pw, c.strings(), o, s) }
		enc := c.dict(r, pw, func(o Object) Object { return o })
		d.trailer["ID"] = Array{String(c.id)}
		d.trailer["Encrypt"] = enc
		given := pw
		var want error
		same := func(a, b string) bool { return (a + vPad)[:32] == (b + vPad)[:32] }
		edit := ""
		switch r.n(12) {
		case 0, 1, 2:
			given = vPassword(r)
			if !same(given, pw) {
				want = EncryptionPasswordError
			}
		case 3:
			given = pw + vPad
		case 4:
			// a password that differs in one bit
			if len(pw) > 0 && len(pw) <= 32 {
				b := []byte(pw)
				b[r.n(len(b))] ^= 1 << uint(r.n(8))
				given = string(b)
				want = EncryptionPasswordError
			}
		case 5:
			edit = r.pick("O", "U", "P", "ID")
			want = EncryptionError
			if edit == "ID" {
				switch r.n(4) {
				case 0:
					delete(d.trailer, "ID")
				case 1:
					d.trailer["ID"] = Array{}
				case 2:
					d.trailer["ID"] = Array{Name("x")}
				default:
					d.trailer["ID"] = String(c.id)
				}
			} else if r.coin(2) {
				delete(enc, edit)
			} else {
				enc[edit] = Name("x")
			}
		case 6:
			want = EncryptionUnsupported
			edit = r.pick("Filter", "V", "R")
			switch edit {
			case "Filter":
				enc["Filter"] = Name(r.pick("standard", "Adobe.PubSec", ""))
				if r.coin(3) {
					delete(enc, "Filter")
				} else if r.coin(3) {
					enc["Filter"] = String("Standard")
				}
			case "V":
				enc["V"] = Number([]int{0, 3, 5, 6, -1}[r.n(5)])
				if r.coin(5) {
					delete(enc, "V")
				}
			default:
				enc["R"] = Number([]int{0, 1, 5, 6, -3}[r.n(5)])
				if r.coin(5) {
					delete(enc, "R")
				}
			}
		case 7:
			edit = "U"
			u := enc["U"].(String)
			if c.r == 2 {
				want = EncryptionPasswordError
				enc["U"] = u[:r.n(32)]
				if r.coin(3) {
					b := []byte(u)
					b[r.n(32)] ^= 4
					enc["U"] = String(b)
				}
			} else if r.coin(2) {
				enc["U"] = u[:16+r.n(16)]
			} else if r.coin(2) {
				want = EncryptionError
				enc["U"] = u[:r.n(16)]
			} else {
				want = EncryptionPasswordError
				b := []byte(u)
				b[r.n(16)] ^= 64
				enc["U"] = String(b)
			}
		case 8:
			edit = "Encrypt"
			want = EncryptionError
			d.trailer["Encrypt"] = []Object{Keyword("true"), Number(1), Array{}, vRef(77), Name("Standard")}[r.n(5)]
		}
		text, _ := d.write(true)
		in := string(text)
		what := fmt.Sprintf("%+v password %q given %q changed %s", *c, pw, given, edit)
		vCall("document", in+given, func() {
			p, err := d.parser(text, given)
			if err != want {
				vWit("verdict", "Load gives %v, specified is %v (%s) in %s", err, want, what, vShow(in))
				return
			}
			if err == nil {
				g := p.GetObject(3)
				if !vObjEq(g.Value, plain) {
					vWit("key", "object 3 is %s, specified is %s (%s) in %s", vObjStr(g.Value), vObjStr(plain), what, vShow(in))
				}
			}
		})
		if i%8 == 0 {
			vCall("Parse", in+given, func() {
				f := filepath.Join(dir, "in.pdf")
				out := filepath.Join(dir, "out")
				os.WriteFile(f, text, 0644)
				err := Parse(f, given, out)
				raw, _ := os.ReadFile(filepath.Join(out, "raw.pdf"))
				if err != want {
					vWit("Parse-verdict", "Parse gives %v, specified is %v (%s) in %s", err, want, what, vShow(in))
				}
				if err != nil && len(raw) != 0 {
					vWit("Parse-stops", "Parse fails with %v but extracts %q (%s)", err, raw, what)
				}
				if err == nil && len(raw) == 0 {
					vWit("Parse-extracts", "Parse succeeds but extracts nothing (%s) in %s", what, vShow(in))
				}
			})
		}
	}
	os.RemoveAll(dir)
	vDone()
}
