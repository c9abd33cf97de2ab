package pdf

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
)

// A document as a model: what the file that is written from it must yield.

type vIO struct {
	num, gen int
	val      Object
	data     []byte // decoded stream data
	raw      []byte // stream data as written
	has      bool
	enc      bool // strings and stream are encrypted
	isXref   bool
}

type vDoc struct {
	g       vText
	r       *vRand
	objs    []*vIO
	by      map[int]*vIO
	dead    map[int]bool // free or compressed entries
	trailer Dictionary
	maxRef  int
	crypt   func(o *vIO, s []byte) []byte // string encryption when writing
	tight   bool                          // no white space variety
}

func vNewDoc(r *vRand) *vDoc {
	return &vDoc{g: vText{r}, r: r, by: map[int]*vIO{}, dead: map[int]bool{}, trailer: Dictionary{}}
}

func (d *vDoc) add(num int, val Object) *vIO {
	o := &vIO{num: num, val: val}
	d.objs = append(d.objs, o)
	d.by[num] = o
	return o
}

func (d *vDoc) stream(num int, dict Dictionary, data []byte) *vIO {
	o := d.add(num, dict)
	o.data, o.raw, o.has = data, data, true
	return o
}

func vRef(n int) *Reference { return NewReference(nil, n, 0) }

// random objects: everything a parser may return.
func (d *vDoc) object(depth int) Object {
	n := 8
	if depth > 0 {
		n = 12
	}
	switch d.r.n(n) {
	case 0:
		return Name(d.nameText())
	case 1:
		return String(d.r.bytes(d.r.n(6)))
	case 2:
		return Keyword(d.r.pick("true", "false", "null", "true", "false", "foo"))
	case 3, 4, 5:
		return d.number()
	case 6, 7:
		return vRef(1 + d.r.n(d.maxRef))
	case 8, 9:
		a := Array{}
		for i := d.r.n(5); i > 0; i-- {
			a = append(a, d.object(depth-1))
		}
		return a
	}
	m := Dictionary{}
	for i := d.r.n(5); i > 0; i-- {
		m[d.key()] = d.object(depth - 1)
	}
	return m
}

func (d *vDoc) key() string {
	if d.r.coin(3) {
		return d.nameText()
	}
	return d.r.pick("A", "B", "C", "D")
}

func (d *vDoc) nameText() string {
	return d.r.pick("", "x", "true", "A B", "#", "0", "a/b", "(", "\x80\xff", "\x00", "Type", "null", "ab", "é", "%")
}

func (d *vDoc) number() Number {
	switch d.r.n(5) {
	case 0:
		return Number(-d.r.n(1000))
	case 1:
		return Number(float64(d.r.n(100000)) / 1000)
	case 2:
		return Number(-float64(d.r.n(1000)) / 8)
	case 3:
		return Number(d.r.n(1 << 40))
	}
	return Number(d.r.n(6))
}

// ser writes an object; ref numbers only, strings in one of the two forms.
func (d *vDoc) ser(o Object, io *vIO) string {
	switch x := o.(type) {
	case Name:
		s := "/"
		for i := 0; i < len(x); i++ {
			c := x[i]
			if c <= ' ' || c > 126 || strings.IndexByte("()<>[]{}/%#", c) >= 0 {
				s += fmt.Sprintf("#%02x", c)
			} else {
				s += string([]byte{c})
			}
		}
		return s
	case String:
		b := []byte(x)
		if d.crypt != nil && io != nil && io.enc {
			b = d.crypt(io, b)
		}
		if d.r.coin(3) {
			return fmt.Sprintf("<%x>", b)
		}
		s := "("
		for _, c := range b {
			switch {
			case c == '(' || c == ')' || c == '\\':
				s += "\\" + string([]byte{c})
			case c < ' ' || c > 126:
				s += fmt.Sprintf("\\%03o", c)
			default:
				s += string([]byte{c})
			}
		}
		return s + ")"
	case Number:
		return strconv.FormatFloat(float64(x), 'f', -1, 64)
	case *Reference:
		return fmt.Sprintf("%d %d R", x.Number, x.Generation)
	case Array:
		s := "["
		for _, e := range x {
			s += d.ser(e, io) + d.sep()
		}
		return s + "]"
	case Dictionary:
		s := "<<"
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += d.sep() + d.ser(Name(k), nil) + d.sep() + d.ser(x[k], io) + d.sep()
		}
		return s + ">>"
	}
	return o.String()
}

func (d *vDoc) sep() string {
	if d.tight || !d.r.coin(4) {
		return " "
	}
	return d.r.pick("\n", "\r\n", "\t", " %c\n", "\x00", "  ", "\f")
}

// body writes an indirect object.
func (d *vDoc) body(o *vIO) string {
	s := strconv.Itoa(o.num) + d.sep() + strconv.Itoa(o.gen) + d.sep() + "obj" + d.sep() + d.ser(o.val, o)
	if o.has {
		end := d.r.pick("\n", "\r\n", "\r")
		if end == "\n" && bytes.HasSuffix(o.raw, []byte("\r")) {
			end = "\r\n"
		}
		s += d.r.pick("\n", " ", "\r\n") + "stream" + d.r.pick("\n", "\r\n", "\n") + string(o.raw) + end + "endstream"
	}
	return s + d.r.pick("\n", " ", "\r\n") + "endobj\n"
}

// write puts the objects into a file with a cross-reference table and returns the offsets.
func (d *vDoc) write(table bool) ([]byte, map[int]int) {
	var b bytes.Buffer
	b.WriteString("%PDF-1.7\n")
	off := map[int]int{}
	order := make([]int, len(d.objs))
	for i := range order {
		j := d.r.n(i + 1)
		order[i] = order[j]
		order[j] = i
	}
	for _, i := range order {
		if d.r.coin(5) {
			b.WriteString(d.r.pick("\n", "%x\n", "  "))
		}
		off[d.objs[i].num] = b.Len()
		b.WriteString(d.body(d.objs[i]))
	}
	at := b.Len()
	if table {
		b.WriteString("xref\n0 1\n0000000000 65535 f \n")
		nums := []int{}
		for n := range off {
			nums = append(nums, n)
		}
		for n := range d.dead {
			nums = append(nums, n)
		}
		sort.Ints(nums)
		for i := 0; i < len(nums); {
			j := i
			for j < len(nums) && nums[j] == nums[i]+j-i {
				j++
			}
			fmt.Fprintf(&b, "%d %d\n", nums[i], j-i)
			for ; i < j; i++ {
				if d.dead[nums[i]] {
					fmt.Fprintf(&b, "%010d %05d f \n", 0, 1)
				} else {
					fmt.Fprintf(&b, "%010d %05d n \n", off[nums[i]], d.by[nums[i]].gen)
				}
			}
		}
		b.WriteString("trailer\n" + d.ser(d.trailer, nil) + "\n")
	} else {
		b.WriteString("trailer\n" + d.ser(d.trailer, nil) + "\n")
	}
	fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF\n", at)
	return b.Bytes(), off
}

// parser opens the file.
func (d *vDoc) parser(data []byte, password string) (*Parser, error) {
	p := vParser(data)
	err := p.Load(password)
	return p, err
}

// follow is what an object stands for: the object at the end of the chain.
func (d *vDoc) follow(o Object) (Object, *vIO) {
	seen := map[int]bool{}
	for {
		r, ok := o.(*Reference)
		if !ok {
			return o, nil
		}
		x := d.by[r.Number]
		if seen[r.Number] || x == nil || d.dead[r.Number] {
			return KEYWORD_NULL, nil
		}
		seen[r.Number] = true
		o = x.val
		if _, ok := o.(*Reference); !ok {
			return o, x
		}
	}
}

func (d *vDoc) obj(o Object) Object { v, _ := d.follow(o); return v }

// hasData: the entry is a reference to an object with a stream.
func (d *vDoc) streamOf(o Object) ([]byte, bool) {
	if _, ok := o.(*Reference); !ok {
		return nil, false
	}
	if _, x := d.follow(o); x != nil && x.has {
		return x.data, true
	}
	return nil, false
}

func (d *vDoc) dict(o Object) Dictionary {
	x, _ := d.obj(o).(Dictionary)
	return x
}

func (d *vDoc) str(o Object) (string, bool) {
	if o == nil {
		return "", false
	}
	x, ok := d.obj(o).(String)
	return string(x), ok
}

// vGet is the way to ask for an entry of one container.
type vGet struct {
	name  string
	obj   func() (Object, bool)
	arr   func() (Array, bool)
	dict  func() (Dictionary, bool)
	nam   func() (string, bool)
	str   func() (string, bool)
	byt   func() ([]byte, bool)
	boo   func() (bool, bool)
	num   func() (Number, bool)
	i     func() (int, bool)
	i64   func() (int64, bool)
	strm  func() ([]byte, bool)
	input string
}

func vDictGet(d Dictionary, k string) vGet {
	return vGet{"Dictionary", func() (Object, bool) { return d.GetObject(k) }, func() (Array, bool) { return d.GetArray(k) }, func() (Dictionary, bool) { return d.GetDictionary(k) },
		func() (string, bool) { return d.GetName(k) }, func() (string, bool) { return d.GetString(k) }, func() ([]byte, bool) { return d.GetBytes(k) }, func() (bool, bool) { return d.GetBool(k) },
		func() (Number, bool) { return d.GetNumber(k) }, func() (int, bool) { return d.GetInt(k) }, func() (int64, bool) { return d.GetInt64(k) }, func() ([]byte, bool) { return d.GetStream(k) }, "key " + strconv.Quote(k)}
}

func vArrGet(a Array, k int) vGet {
	return vGet{"Array", func() (Object, bool) { return a.GetObject(k) }, func() (Array, bool) { return a.GetArray(k) }, func() (Dictionary, bool) { return a.GetDictionary(k) },
		func() (string, bool) { return a.GetName(k) }, func() (string, bool) { return a.GetString(k) }, func() ([]byte, bool) { return a.GetBytes(k) }, func() (bool, bool) { return a.GetBool(k) },
		func() (Number, bool) { return a.GetNumber(k) }, func() (int, bool) { return a.GetInt(k) }, func() (int64, bool) { return a.GetInt64(k) }, func() ([]byte, bool) { return a.GetStream(k) }, "index " + strconv.Itoa(k)}
}

// access checks every accessor on one entry (want is nil if there is none).
func (d *vDoc) access(in string, get vGet, want Object) {
	v := Object(KEYWORD_NULL)
	if want != nil {
		v = d.obj(want)
	}
	bad := func(what string, got, exp interface{}) {
		vWit("access-"+get.name+"."+what, "%s.%s at %s gives %v, specified is %v (entry %s) in %s", get.name, what, get.input, got, exp, vObjStr(want), in)
	}
	if o, ok := get.obj(); ok != (want != nil) || !vObjEq(o, v) {
		bad("GetObject", fmt.Sprint(vObjStr(o), ok), fmt.Sprint(vObjStr(v), want != nil))
	}
	{
		x, is := v.(Array)
		if a, ok := get.arr(); ok != is || !(len(a) == 0 && len(x) == 0 || vObjEq(a, x)) {
			bad("GetArray", fmt.Sprint(vObjStr(a), ok), is)
		}
	}
	{
		x, is := v.(Dictionary)
		if a, ok := get.dict(); ok != is || !(len(a) == 0 && len(x) == 0 || vObjEq(a, x)) {
			bad("GetDictionary", fmt.Sprint(vObjStr(a), ok), is)
		}
	}
	{
		x, is := v.(Name)
		if a, ok := get.nam(); ok != is || a != string(x) {
			bad("GetName", fmt.Sprint(a, ok), fmt.Sprint(x, is))
		}
	}
	{
		x, is := v.(String)
		if a, ok := get.str(); ok != is || a != string(x) {
			bad("GetString", fmt.Sprint(strconv.Quote(a), ok), fmt.Sprint(x, is))
		}
		if a, ok := get.byt(); ok != is || string(a) != string(x) {
			bad("GetBytes", fmt.Sprint(a, ok), fmt.Sprint(x, is))
		}
	}
	{
		x, is := v.(Keyword)
		is = is && (x == "true" || x == "false")
		if a, ok := get.boo(); ok != is || a != (is && x == "true") {
			bad("GetBool", fmt.Sprint(a, ok), fmt.Sprint(x, is))
		}
	}
	{
		x, is := v.(Number)
		if a, ok := get.num(); ok != is || !vNumEq(float64(a), float64(x)) {
			bad("GetNumber", fmt.Sprint(a, ok), fmt.Sprint(x, is))
		}
		if f := float64(x); math.Abs(f-math.Round(f)) > 1e-6 || f == math.Trunc(f) {
			if a, ok := get.i(); ok != is || a != int(x) {
				bad("GetInt", fmt.Sprint(a, ok), fmt.Sprint(x, is))
			}
			if a, ok := get.i64(); ok != is || a != int64(x) {
				bad("GetInt64", fmt.Sprint(a, ok), fmt.Sprint(x, is))
			}
		}
	}
	{
		x, is := d.streamOf(want)
		if a, ok := get.strm(); ok != is || !bytes.Equal(a, x) {
			bad("GetStream", fmt.Sprint(strconv.Quote(string(a)), ok), fmt.Sprint(strconv.Quote(string(x)), is))
		}
	}
}

// fill makes a document of random objects, some with streams, some free, with chains and cycles.
func (d *vDoc) fill(n int) {
	d.maxRef = n + 3
	for i := 1; i <= n; i++ {
		switch {
		case d.r.coin(5):
			d.stream(i, Dictionary{"K": d.object(1)}, d.r.from("abcxyz \n0", d.r.n(20)))
		case d.r.coin(12):
			d.stream(i, Dictionary{}, []byte{})
		case d.r.coin(4):
			d.add(i, vRef(1+d.r.n(d.maxRef)))
		case d.r.coin(30):
			// a reference with data of its own
			o := d.stream(i, Dictionary{}, d.r.from("abc", d.r.n(9)))
			o.val = vRef(1 + d.r.n(d.maxRef))
		case d.r.coin(12):
			d.dead[i] = true
		default:
			d.add(i, d.object(3))
		}
		if o := d.by[i]; o != nil && d.r.coin(4) {
			o.gen = d.r.n(3)
		}
	}
	// what a stream ends with is cut by the line end before the marker
	for _, o := range d.objs {
		for len(o.data) > 0 && strings.IndexByte("\r\n", o.data[len(o.data)-1]) >= 0 {
			o.data = o.data[:len(o.data)-1]
		}
		o.raw = o.data
	}
}

// each calls f on every container inside an object as parsed and in the model.
func vWalk(got, want Object, f func(got, want Object)) {
	f(got, want)
	switch x := want.(type) {
	case Array:
		y, _ := got.(Array)
		for i := range x {
			if i < len(y) {
				vWalk(y[i], x[i], f)
			}
		}
	case Dictionary:
		y, _ := got.(Dictionary)
		for k := range x {
			if v, ok := y[k]; ok {
				vWalk(v, x[k], f)
			}
		}
	}
}

var _ = io.EOF
