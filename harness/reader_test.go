package pdf

import (
	"bytes"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// vSeeker is a file: a read seldom fills the buffer it is given.
type vSeeker struct {
	*bytes.Reader
	chunk int
}

func (s *vSeeker) Read(p []byte) (int, error) {
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	return s.Reader.Read(p)
}

var vErrFile *os.File

// vParser is a parser of data whose messages go to a scratch file.
func vParser(data []byte) *Parser {
	if vErrFile == nil {
		f, err := os.Create(filepath.Join(vWorkDir(), "errors.txt"))
		if err != nil {
			panic(err)
		}
		vErrFile = f
	}
	vErrFile.Truncate(0)
	vErrFile.Seek(0, io.SeekStart)
	return NewParser(&vSeeker{bytes.NewReader(data), len(data) % 5000}, &Output{Errors: vErrFile})
}

func vLog() []byte {
	n, _ := vErrFile.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	vErrFile.ReadAt(b, 0)
	return b
}

// vDecryptor marks what it decrypts.
type vDecryptor struct{}

func (d *vDecryptor) Decrypt(data []byte) []byte {
	r := []byte{byte(len(data))}
	for _, c := range data {
		r = append(r, c^0x55)
	}
	return r
}

func vNumEq(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// vObjEq compares objects; numbers may differ by rounding.
func vObjEq(a, b Object) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Number:
		y, ok := b.(Number)
		return ok && vNumEq(float64(x), float64(y))
	case *Reference:
		y, ok := b.(*Reference)
		return ok && x.Number == y.Number && x.Generation == y.Generation
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !vObjEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case Dictionary:
		y, ok := b.(Dictionary)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !vObjEq(x[k], v) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// vObjStr shows an object with its type.
func vObjStr(o Object) string {
	switch x := o.(type) {
	case nil:
		return "nil"
	case Array:
		s := []string{}
		for _, e := range x {
			s = append(s, vObjStr(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case Dictionary:
		s := []string{}
		for k, e := range x {
			s = append(s, strconv.Quote(k)+":"+vObjStr(e))
		}
		sort.Strings(s)
		return "<<" + strings.Join(s, " ") + ">>"
	case *Reference:
		return x.String()
	}
	return reflect.TypeOf(o).Name() + "(" + strconv.Quote(o.String()) + ")"
}

func vObjCheck(key, input string, got, want Object) {
	if !vObjEq(got, want) {
		vWit(key, "%s on %s gives %s, specified is %s", key, vShow(input), vObjStr(got), vObjStr(want))
	}
}

func vIntCheck(key, what, input string, got, want int) {
	if got != want {
		vWit(key, "%s: %s on %s is %d, specified is %d", key, what, vShow(input), got, want)
	}
}

// vAt reads at a position inside data, as a parser in use does.
func vAt(p *Parser, off int) {
	if off > 0 {
		p.Seek(int64(off), io.SeekStart)
	}
}

// vReader checks one reader against its specification at one position.
// what is a combination of s(tring) h(ex) n(ame) i(nt) f(loat) k(eyword) o(bject)
// a(rray) d(ictionary) c(ommand); check is one of value and log.
func vReader(kind byte, check string, data []byte, off int) {
	in := string(data)
	if off > 0 {
		in = "skip " + strconv.Itoa(off) + " of " + in
	}
	dec := Decryptor(&vDecryptor{})
	vCall("read-"+string(kind), in, func() {
		p := vParser(data)
		vAt(p, off)
		var log []byte
		end := 0
		val := strings.Contains(check, "v")
		eq := func(name string, got, want Object) {
			if val {
				vObjCheck(name, in, got, want)
			}
		}
		switch kind {
		case 's':
			got := p.ReadString(dec)
			want := String("")
			if sp_begins(data, off, '(') {
				want = String(sp_decrypt(dec, sp_string(data, off)))
			}
			eq("ReadString", got, want)
			end, log = sp_string_end(data, off), sp_string_log(data, off)
		case 'h':
			got := p.ReadHexString(dec)
			want := String("")
			if sp_begins(data, off, '<') {
				want = String(sp_decrypt(dec, sp_hex(data, off)))
			}
			eq("ReadHexString", got, want)
			end, log = sp_hex_end(data, off), sp_hex_log(data, off)
		case 'n':
			eq("ReadName", p.ReadName(), Name(sp_name(data, off)))
			end, log = sp_name_end(data, off), sp_name_log(data, off)
		case 'i':
			v, ok := p.ReadInt64()
			if val && (ok != sp_isint(data, off) || ok && v != sp_int(data, off)) {
				vWit("ReadInt64", "ReadInt64 on %s gives %d %v, specified is %d %v", vShow(in), v, ok, sp_int(data, off), sp_isint(data, off))
			}
			end = sp_int_end(data, off)
		case 'I':
			v, ok := p.ReadInt()
			if val && (ok != sp_isint(data, off) || ok && v != int(sp_int(data, off))) {
				vWit("ReadInt", "ReadInt on %s gives %d %v, specified is %d %v", vShow(in), v, ok, sp_int(data, off), sp_isint(data, off))
			}
			end = sp_int_end(data, off)
		case 'f':
			eq("ReadNumber", p.ReadNumber(), Number(sp_number(data, off)))
			end = sp_number_end(data, off)
		case 'k':
			eq("ReadKeyword", p.ReadKeyword(), Keyword(sp_keyword(data, off)))
			end = sp_keyword_end(data, off)
		case 'o':
			o, err := p.ReadObject(dec)
			eq("ReadObject", o, sp_obj(p, dec, data, off))
			if val && err != sp_obj_err(data, off) {
				vWit("ReadObject-error", "ReadObject on %s returns %v, specified is %v", vShow(in), err, sp_obj_err(data, off))
			}
			end, log = sp_obj_end(data, off), sp_obj_log(data, off)
		case 'a':
			eq("ReadArray", p.ReadArray(dec), sp_array(p, dec, data, off))
			end, log = sp_array_end(data, off), sp_array_log(data, off)
		case 'd':
			eq("ReadDictionary", p.ReadDictionary(dec), sp_dictionary(p, dec, data, off))
			end, log = sp_dictionary_end(data, off), sp_dictionary_log(data, off)
		case 'c':
			k, ops, err := p.ReadCommand()
			eq("ReadCommand-operands", ops, sp_cmd(p, data, off))
			if val && (string(k) != sp_cmd_word(data, off) || err != sp_cmd_err(data, off)) {
				vWit("ReadCommand", "ReadCommand on %s gives %q %v, specified is %q %v", vShow(in), k, err, sp_cmd_word(data, off), sp_cmd_err(data, off))
			}
			end, log = sp_cmd_end(data, off), sp_cmd_log(data, off)
		}
		if val {
			vIntCheck("position-"+string(kind), "the position after the token", in, int(p.CurrentOffset()), end)
		}
		if strings.Contains(check, "l") {
			vBytes("errors-"+string(kind), in, vLog(), log)
		}
	})
}

// vText makes PDF text at random: well formed most of the time, then damaged.
type vText struct{ r *vRand }

func (g vText) ws() string {
	switch g.r.n(9) {
	case 0:
		return "\n"
	case 1:
		return "\r\n"
	case 2:
		return "%c)>]\r\n"
	case 3:
		return " % x\r"
	case 4:
		return "\x00\t\f"
	case 5:
		return "%\n% \r \n"
	}
	return " "
}

func (g vText) str() string {
	var s strings.Builder
	s.WriteByte('(')
	for i := g.r.n(10); i > 0; i-- {
		switch g.r.n(8) {
		case 0:
			s.WriteString(g.r.pick(`\n`, `\r`, `\t`, `\b`, `\f`, `\(`, `\)`, `\\`, `\x`, "\\\n", "\\\r", "\\\r\n", "\\\r\r\n", "\\\n\n"))
		case 1:
			s.WriteByte('\\')
			s.Write(g.r.from("01234567", 1+g.r.n(4)))
		case 2:
			s.WriteString(g.r.pick(`\400`, `\777`, `\4001`, `\18`, `\128`, `\0053`, `\53`, `\101`, `\8`, `\377`, `\051`, `\134`, `\041`, `\040`, `\176`, `\177`))
		case 3:
			s.WriteString("(" + string(g.r.from("a()b\\(", g.r.n(3))) + ")")
		case 4:
			s.WriteByte(g.r.b())
		default:
			s.WriteString(g.r.pick("a", "%", "<", "]", "\n", "\r", "\r\n", " ", "7", "\\"))
		}
	}
	s.WriteByte(')')
	return s.String()
}

func (g vText) hex() string {
	s := "<"
	for i := g.r.n(8); i > 0; i-- {
		s += g.r.pick("0", "9", "a", "F", "41", "fF", " ", "\n", "g", "G", "@", "`", "(", "/", "%x>\n", "\x00", "-", "<")
	}
	return s + ">"
}

func (g vText) name() string {
	s := "/"
	for i := g.r.n(6); i > 0; i-- {
		s += g.r.pick("a", "Bc", "1", ".", "#41", "#20", "#2", "#", "#g", "#4g", "#7E", "#7F", "#21", "#23", "#25", "#2F", "#00", "\x80", "!", "~", "#4", "#0a", "#Fe", "@", "'")
	}
	return s
}

func (g vText) num() string {
	s := g.r.pick("", "", "", "-", "+", "--", "+-")
	s += g.r.pick("", "0", "7", "12", "0042", "4294967296", "9007199254740993", "123456789012345678")
	s += g.r.pick("", "", ".", ".5", ".025", ".0", "..1", ".1.2", "e5", "-1")
	return s
}

func (g vText) word() string {
	return g.r.pick("true", "false", "null", "R", "obj", "endobj", "stream", "n", "f", "Tj", "BT", "T*", "'", "\"", "a", "xref", "R1", "\x80", "{", "}", "Rx", "r")
}

func (g vText) ref() string {
	return g.r.pick("1", "0", "12", "-3", "1.5") + g.ws() + g.r.pick("0", "1", "65535", "-1", "x") + g.ws() + g.r.pick("R", "R", "R", "R", "obj", "R2", "r", "")
}

func (g vText) obj(depth int) string {
	if depth <= 0 {
		switch g.r.n(7) {
		case 0:
			return g.str()
		case 1:
			return g.hex()
		case 2:
			return g.name()
		case 3:
			return g.ref()
		case 4:
			return g.word()
		}
		return g.num()
	}
	switch g.r.n(4) {
	case 0:
		s := "["
		for i := g.r.n(5); i > 0; i-- {
			s += g.obj(g.r.n(depth)) + g.sep()
		}
		return s + "]"
	case 1, 2:
		s := "<<"
		for i := g.r.n(5); i > 0; i-- {
			k := g.name()
			if g.r.coin(4) {
				k = g.r.pick("/A", "/B")
			}
			if g.r.coin(12) {
				k = g.obj(g.r.n(depth))
			}
			s += g.sep() + k + g.sep() + g.obj(g.r.n(depth)) + g.sep()
		}
		return s + ">>"
	}
	return g.obj(0)
}

func (g vText) sep() string {
	if g.r.coin(5) {
		return ""
	}
	return g.ws()
}

// damage changes, drops, repeats or cuts.
func (g vText) damage(s string) string {
	b := []byte(s)
	for k := g.r.n(3); k > 0 && len(b) > 0; k-- {
		i := g.r.n(len(b))
		switch g.r.n(5) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = "()<>[]/%\\#\r\n 0a\x00"[g.r.n(16)]
		case 2:
			b = b[:i]
		case 3:
			b[i] = g.r.b()
		case 4:
			b = append(b[:i], append([]byte{"()<>[]/%\\#\r\n 0a\x00"[g.r.n(16)]}, b[i:]...)...)
		}
	}
	return string(b)
}

// place puts text somewhere in a file, sometimes across a buffer boundary.
func (g vText) place(s string) ([]byte, int) {
	pre := ""
	off := 0
	switch g.r.n(12) {
	case 0:
		n := 4096 - g.r.n(len(s)+3)
		pre = strings.Repeat(g.r.pick(" ", "\n"), n)
	case 1:
		n := 4096 - g.r.n(len(s)+3)
		pre = "%" + strings.Repeat("x", n-2) + "\r"
	case 2:
		pre = string(g.r.bytes(g.r.n(9)))
		off = len(pre)
	case 3:
		pre = strings.Repeat("z", 4096-g.r.n(len(s)+3))
		off = len(pre) - g.r.n(2)
	default:
		if g.r.coin(3) {
			pre = g.ws()
		}
	}
	return []byte(pre + s), off
}

func vReaders(kinds, check, alpha string, maxLen, random int, seed string, gen func(g vText) string) {
	if maxLen > 0 {
		vEnum(alpha, maxLen, func(b []byte) {
			for i := range []byte(kinds) {
				vReader(kinds[i], check, b, 0)
			}
		})
	}
	g := vText{vNewRand(seed)}
	for i := 0; i < random && vTimeLeft(); i++ {
		s := gen(g)
		if g.r.coin(3) {
			s = g.damage(s)
		}
		if g.r.coin(3) {
			s += g.ws() + gen(g)
		} else if g.r.coin(2) {
			s += string(g.r.from("()<>[]/%\\#\r\n 0a", g.r.n(3)))
		}
		d, off := g.place(s)
		for i := range []byte(kinds) {
			vReader(kinds[i], check, d, off)
		}
	}
}

func TestVerifC03(t *testing.T) {
	n, m := vPick(4, 6), vPick(30000, 400000)
	vRule("ReadString against sp_string: value and position; every string '('+x of up to %d symbols over an 11 symbol alphabet; %d random texts, some damaged, some across a buffer boundary", n, m)
	vEnum("\\()a\r\n013 n", n, func(b []byte) { vReader('s', "v", append([]byte("("), b...), 0) })
	for i := 0; i < 4096; i++ {
		vReader('s', "v", []byte("(\\"+strconv.FormatInt(int64(i), 8)+")"), 0)
	}
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j++ {
			vReader('s', "v", []byte{'(', '\\', byte(i), byte(j), ')', 'x'}, 0)
		}
	}
	vReaders("s", "v", "", 0, m, "C03", vText.str)
	vDone()
}

func TestVerifC04(t *testing.T) {
	n, m := vPick(4, 6), vPick(30000, 400000)
	vRule("ReadHexString, ReadName and IsHex against sp_hex, sp_name, sp_ishex: value and position; every token of up to %d symbols over a 10 symbol alphabet; %d random texts, some damaged, some across a buffer boundary", n, m)
	for i := 0; i < 256; i++ {
		b := byte(i)
		vCall("IsHex", string([]byte{b}), func() {
			if IsHex(b) != sp_ishex(b) {
				vWit("IsHex", "IsHex(%q) is %v", b, IsHex(b))
			}
		})
		for j := 0; j < 256; j++ {
			vReader('n', "v", []byte{'/', '#', b, byte(j), 'x'}, 0)
			vReader('h', "v", []byte{'<', b, byte(j), '1', '>'}, 0)
		}
	}
	vEnum("0aFg> %\n<\x00", n, func(b []byte) { vReader('h', "v", append([]byte("<"), b...), 0) })
	vEnum("0aFg# /%\n#", n, func(b []byte) { vReader('n', "v", append([]byte("/"), b...), 0) })
	vReaders("hn", "v", "", 0, m/2, "C04h", vText.hex)
	vReaders("hn", "v", "", 0, m/2, "C04n", vText.name)
	vDone()
}

func TestVerifC05(t *testing.T) {
	n, m := vPick(4, 5), vPick(30000, 300000)
	vRule("ReadInt, ReadInt64, ReadNumber, ReadKeyword against sp_int, sp_number, sp_keyword: value and position (numbers up to rounding); every text of up to %d symbols over a 12 symbol alphabet, every pair of bytes; %d random texts, some damaged, some across a buffer boundary", n, m)
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j++ {
			for _, k := range []byte("iIfk") {
				vReader(k, "v", []byte{byte(i), byte(j), '1'}, 0)
				vReader(k, "v", []byte{'4', byte(i), byte(j)}, 0)
			}
		}
	}
	vReaders("iIfk", "v", "019.-+%\n\r a\x00", n, m, "C05", func(g vText) string {
		switch g.r.n(4) {
		case 0:
			return g.ws() + g.ws() + g.word()
		case 1:
			return g.word()
		}
		return g.num()
	})
	// decimal values, independently of the specification functions
	r := vNewRand("C05f")
	for i := 0; i < m/4; i++ {
		s := r.pick("", "-", "+") + strconv.Itoa(r.n(1<<r.n(40))) + r.pick("", "."+string(r.from("0123456789", 1+r.n(9))))
		if r.coin(4) {
			s = r.pick("", "-", "+") + r.pick("", "0", "00") + "." + strings.Repeat("0", r.n(40)) + string(r.from("0123456789", 1+r.n(40)))
		}
		vCall("decimal", s, func() {
			want, _ := strconv.ParseFloat(s, 64)
			if got := float64(vParser([]byte(s)).ReadNumber()); !vNumEq(got, want) {
				vWit("decimal", "ReadNumber on %s gives %g", s, got)
			}
		})
	}
	vDone()
}

func TestVerifC06(t *testing.T) {
	n, m := vPick(4, 5), vPick(30000, 300000)
	vRule("ReadObject, ReadArray, ReadDictionary, ReadCommand against sp_obj, sp_array, sp_dictionary, sp_cmd: value, error and position; every text of up to %d symbols over a 12 symbol alphabet; %d random texts, some damaged, some across a buffer boundary", n, m)
	vReaders("oadc", "v", "<>[]/a1 R().", n, 0, "", nil)
	vReaders("oadc", "v", "", 0, m, "C06", func(g vText) string { return g.obj(g.r.n(4)) })
	vReaders("c", "v", "", 0, m/3, "C06c", func(g vText) string {
		s := ""
		for i := g.r.n(5); i > 0; i-- {
			s += g.obj(g.r.n(2)) + g.sep()
		}
		return s + g.word()
	})
	vDone()
}

func TestVerifC07(t *testing.T) {
	n, m := vPick(3, 5), vPick(30000, 300000)
	vRule("messages of ReadString, ReadHexString, ReadName, ReadObject, ReadArray, ReadDictionary, ReadCommand, ReadStream in the error report against the sp_..._log functions: every text of up to %d symbols over a 14 symbol alphabet; %d random texts, some damaged", n, m)
	vEnum("\\()\r\n0147 a", n+1, func(b []byte) { vReader('s', "l", append([]byte("("), b...), 0) })
	vEnum("0ag>% \n", n+1, func(b []byte) { vReader('h', "l", append([]byte("<"), b...), 0) })
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j++ {
			vReader('n', "l", []byte{'/', '#', byte(i), byte(j)}, 0)
		}
	}
	for i := 0; i < 1024; i++ {
		for _, s := range []string{")", "", "x)", "0)"} {
			vReader('s', "l", []byte("(\\"+strconv.FormatInt(int64(i), 8)+s), 0)
		}
	}
	vReaders("oadc", "l", "<>[]/a1 R()#g\\", n, 0, "", nil)
	vReaders("oadc", "l", "", 0, m, "C07", func(g vText) string { return g.obj(g.r.n(4)) })
	vReaders("shn", "l", "", 0, m, "C07t", func(g vText) string { return g.obj(0) })
	// no messages without a report
	g := vText{vNewRand("C07n")}
	for i := 0; i < 2000; i++ {
		s := g.damage(g.obj(3))
		vCall("no-report", s, func() { NewParser(bytes.NewReader([]byte(s)), nil).ReadObject(noDecryptor) })
		vCall("no-report-file", s, func() { NewParser(bytes.NewReader([]byte(s)), &Output{}).ReadObject(noDecryptor) })
	}
	vDone()
}
