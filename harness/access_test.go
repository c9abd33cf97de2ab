package pdf

import (
	"io"
	"testing"
)

func TestVerifC20(t *testing.T) {
	n := vPick(12000, 100000)
	vRule("every accessor of dictionaries and arrays on every entry, absent keys and positions outside the array, against the model of %d random documents (direct entries, references, chains, cycles, free and missing objects)", n)
	r := vNewRand("C20")
	for i := 0; i < n && vTimeLeft(); i++ {
		d := vNewDoc(r)
		d.fill(3 + r.n(8))
		data, _ := d.write(true)
		in := string(data)
		vCall("document", in, func() {
			p, err := d.parser(data, "")
			if err != nil {
				vWit("load", "loading %s fails: %v", vShow(in), err)
				return
			}
			for _, o := range d.objs {
				got := p.GetObject(o.num)
				vObjCheck("GetObject", in, got.Value, o.val)
				vWalk(got.Value, o.val, func(g, w Object) {
					switch x := w.(type) {
					case Dictionary:
						gd, ok := g.(Dictionary)
						if !ok {
							return
						}
						for _, k := range []string{"A", "B", "C", "K", "", "x", "absent"} {
							d.access(vShow(in), vDictGet(gd, k), x[k])
						}
						for k := range x {
							d.access(vShow(in), vDictGet(gd, k), x[k])
							rf, is := x[k].(*Reference)
							if a, ok := gd.GetReference(k); ok != is || is && (a.Number != rf.Number || a.Generation != rf.Generation) {
								vWit("GetReference", "GetReference of %q gives %v %v in %s", k, a, ok, vShow(in))
							}
						}
						if a, ok := gd.GetReference("absent"); ok || a != nil {
							vWit("GetReference", "GetReference of an absent key gives %v %v", a, ok)
						}
					case Array:
						ga, ok := g.(Array)
						if !ok {
							return
						}
						for j := -2; j < len(x)+2; j++ {
							var w Object
							if j >= 0 && j < len(x) {
								w = x[j]
							}
							d.access(vShow(in), vArrGet(ga, j), w)
						}
					}
				})
			}
		})
	}
	// containers of a document that is being read by nobody
	for i := 0; i < 300; i++ {
		d := vNewDoc(r)
		d.maxRef = 3
		a := Array{Name("x"), String("x"), Number(1.5), Keyword("true"), Keyword("x"), Array{}, Dictionary{}, Name("true"), String("")}
		m := Dictionary{}
		for j, o := range a {
			m[string(rune('a'+j))] = o
		}
		vCall("direct", "direct", func() {
			for j := -1; j <= len(a); j++ {
				var w Object
				if j >= 0 && j < len(a) {
					w = a[j]
				}
				d.access("direct", vArrGet(a, j), w)
				d.access("direct", vDictGet(m, string(rune('a'+j))), w)
			}
			d.access("empty", vDictGet(nil, "a"), nil)
			d.access("empty", vArrGet(nil, 0), nil)
		})
	}
	vDone()
}

func TestVerifC18(t *testing.T) {
	n := vPick(20000, 200000)
	vRule("Resolve and ResolveStream of references to every object and to unknown ones, from a random position, against the model of %d random documents with chains, cycles, free and missing objects; the position and the next byte are compared before and after", n)
	r := vNewRand("C18")
	for i := 0; i < n && vTimeLeft(); i++ {
		d := vNewDoc(r)
		d.fill(3 + r.n(8))
		if r.coin(100) {
			// a long chain
			last := 20 + r.n(120)
			for k := 20; k < last; k++ {
				d.add(k, vRef(k+1))
			}
			d.stream(last, Dictionary{}, []byte("end of the chain"))
			d.maxRef = 22
		}
		if r.coin(100) {
			// more than one read buffer
			d.stream(19, Dictionary{}, r.from("abcxyz", 3000+r.n(8000)))
		}
		data, _ := d.write(true)
		in := string(data)
		vCall("document", in, func() {
			p, err := d.parser(data, "")
			if err != nil {
				vWit("load", "loading %s fails: %v", vShow(in), err)
				return
			}
			for k := 0; k < d.maxRef+2; k++ {
				ref := NewReference(p, k, r.n(3))
				at := r.n(len(data))
				p.Seek(int64(at), io.SeekStart)
				for j := r.n(3); j > 0; j-- {
					if _, err := p.ReadByte(); err == nil {
						at++
					}
				}
				if r.coin(3) {
					p.Peek(1)
				}
				want, x := d.follow(vRef(k))
				if r.coin(2) {
					vObjCheck("Resolve", in, ref.Resolve(), want)
				} else {
					s := ref.ResolveStream()
					var w []byte
					has := false
					if x != nil && x.has {
						w, has = x.data, true
					}
					if string(s) != string(w) || has != (s != nil) {
						vWit("ResolveStream", "the stream of object %d is %q, specified is %q %v in %s", k, s, w, has, vShow(in))
					}
				}
				if got := p.CurrentOffset(); got != int64(at) {
					vWit("resolve-position", "resolving %d moves the position from %d to %d in %s", k, at, got, vShow(in))
				}
				if b, err := p.ReadByte(); at < len(data) && (err != nil || b != data[at]) {
					vWit("resolve-next-byte", "after resolving %d at %d the next byte is %q %v in %s", k, at, b, err, vShow(in))
				}
			}
		})
	}
	vDone()
}
