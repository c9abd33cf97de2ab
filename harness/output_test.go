package pdf

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing"
)

// vReport is what an extraction must write.
type vReport struct {
	commands, urls, js, files []string
	dumps                     map[string][]byte
}

func (o *vReport) lines(l *[]string, s string) { *l = append(*l, strings.Split(s, "\n")...) }

func (o *vReport) dump(name string, data []byte) {
	h := fmt.Sprintf("%x", md5.Sum(data))
	o.lines(&o.files, h+":"+name)
	o.dumps[h] = data
}

const vZero = "00000000000000000000000000000000"

func (d *vDoc) get(x Dictionary, k string) Object {
	v, ok := x[k]
	if !ok {
		return KEYWORD_NULL
	}
	return d.obj(v)
}

// file is a file specification; in a launch action it is a command.
func (d *vDoc) file(o *vReport, x Dictionary, command bool) {
	f, hasF := d.get(x, "F").(String)
	fs := ""
	switch y := d.get(x, "FS").(type) {
	case Name:
		fs = string(y)
	case String:
		fs = string(y)
	}
	if fs == "URL" {
		if hasF {
			o.lines(&o.urls, string(f))
		}
		return
	}
	if ef, ok := d.get(x, "EF").(Dictionary); ok {
		if !hasF {
			f = vZero
		}
		data, _ := d.streamOf(ef["F"])
		o.dump(string(f), data)
		return
	}
	if !hasF {
		return
	}
	o.lines(&o.files, vZero+":"+string(f))
	if p, ok := d.get(x, "P").(String); ok {
		o.lines(&o.commands, string(f)+" "+string(p))
	} else if command {
		o.lines(&o.commands, string(f))
	}
}

func (d *vDoc) action(o *vReport, x Dictionary) {
	s, _ := d.get(x, "S").(Name)
	launch := s == "Launch"
	switch f := d.get(x, "F").(type) {
	case String:
		if launch {
			o.lines(&o.commands, string(f))
		}
		o.lines(&o.files, vZero+":"+string(f))
	case Dictionary:
		d.file(o, f, launch)
	}
	if w, ok := d.get(x, "Win").(Dictionary); ok {
		d.file(o, w, launch)
	}
}

func (d *vDoc) met(o *vReport, v Object) {
	switch x := v.(type) {
	case Array:
		for _, e := range x {
			d.met(o, e)
		}
	case Dictionary:
		for _, k := range []string{"A", "OpenAction"} {
			if a, ok := d.get(x, k).(Dictionary); ok {
				d.action(o, a)
			}
		}
		if aa, ok := d.get(x, "AA").(Dictionary); ok {
			for k := range aa {
				if a, ok := d.get(aa, k).(Dictionary); ok {
					d.action(o, a)
				}
			}
		}
		if s, ok := d.streamOf(x["XFA"]); ok {
			o.dump("form.xml", s)
		} else if a, ok := d.get(x, "XFA").(Array); ok {
			var all []byte
			for _, e := range a {
				s, _ := d.streamOf(e)
				all = append(all, s...)
			}
			o.dump("form.xml", all)
		}
		if e, ok := x["EmbeddedFiles"]; ok {
			a := d.names(e)
			for i := 1; i < len(a); i += 2 {
				switch f := d.obj(a[i]).(type) {
				case String:
					o.lines(&o.files, vZero+":"+string(f))
				case Dictionary:
					d.file(o, f, false)
				}
			}
		}
		if e, ok := x["URLS"]; ok {
			a := d.names(e)
			for i := 0; i < len(a); i += 2 {
				if f, ok := d.obj(a[i]).(String); ok {
					o.lines(&o.urls, string(f))
				}
			}
		}
		if s, ok := d.get(x, "JS").(String); ok {
			o.lines(&o.js, string(s))
		} else if s, ok := d.streamOf(x["JS"]); ok {
			o.lines(&o.js, string(s))
		}
		switch u := d.get(x, "URI").(type) {
		case String:
			o.lines(&o.urls, string(u))
		case Dictionary:
			if b, ok := d.get(u, "Base").(String); ok {
				o.lines(&o.urls, string(b))
			}
		}
		for k := range x {
			d.met(o, x[k])
		}
	}
}

func (d *vDoc) report() *vReport {
	o := &vReport{dumps: map[string][]byte{}}
	for _, x := range d.objs {
		d.met(o, x.val)
	}
	return o
}

// vRich generates the constructs that are reported.
type vRich struct {
	*vDoc
	next  int
	evil  []string
	serial int
}

func (d *vRich) ref(o Object) Object {
	if !d.r.coin(3) {
		return o
	}
	d.next++
	d.add(d.next, o)
	n := d.next
	if d.r.coin(5) {
		d.next++
		d.add(d.next, vRef(n))
	}
	return vRef(d.next)
}

func (d *vRich) text() String {
	d.serial++
	switch d.r.n(8) {
	case 0:
		return String(d.r.pick(d.evil...))
	case 1:
		return String(fmt.Sprintf("t%d\xff\x80(%%d%%s)", d.serial))
	case 2:
		return String("")
	case 3:
		return String(fmt.Sprintf("cmd.exe /c a%d.exe", d.serial))
	}
	return String(fmt.Sprintf("t%d", d.serial))
}

func (d *vRich) data() []byte {
	d.serial++
	var b []byte
	switch d.r.n(6) {
	case 0:
		b = nil
	case 1:
		b = d.r.bytes(d.r.n(300))
	case 2:
		b = bytes.Repeat(d.r.bytes(7), d.r.n(1500))
	case 3:
		b = []byte("same for many")
	default:
		b = []byte(fmt.Sprintf("data %d %%s\nsecond line", d.serial))
	}
	for len(b) > 0 && (b[len(b)-1] == '\r' || b[len(b)-1] == '\n') {
		b = b[:len(b)-1]
	}
	return b
}

// newStream writes data through random filters.
func (d *vRich) newStream(data []byte) Object {
	d.next++
	n := d.next
	x := Dictionary{}
	raw := data
	switch d.r.n(4) {
	case 0:
		raw, x["Filter"] = vFlate(data), Name("FlateDecode")
	case 1:
		raw, x["Filter"] = []byte(fmt.Sprintf("%x>", data)), d.ref(Array{Name("ASCIIHexDecode")})
	}
	if bytes.Contains(raw, []byte("endstream")) || bytes.HasSuffix(raw, []byte("\r")) || bytes.HasSuffix(raw, []byte("\n")) || d.r.coin(3) {
		raw, x["Filter"] = []byte(fmt.Sprintf("%x>", data)), Name("ASCIIHexDecode")
	}
	if d.r.coin(3) {
		x["Params"] = Dictionary{"Size": Number(len(data))}
	}
	o := d.stream(n, x, data)
	o.raw = raw
	return vRef(n)
}

func (d *vRich) junk() Object {
	d.maxRef = 8
	return d.object(1)
}

func (d *vRich) filespec(command bool) Dictionary {
	x := Dictionary{"Type": Name("Filespec")}
	if !d.r.coin(6) {
		x["F"] = d.ref(d.text())
	} else if d.r.coin(3) {
		x["F"] = Number(2)
	}
	if d.r.coin(4) {
		x["UF"] = d.text()
	}
	switch d.r.n(5) {
	case 0:
		x["FS"] = d.ref(Name(d.r.pick("URL", "File", "url")))
	case 1:
		x["EF"] = d.ref(Dictionary{"F": d.newStream(d.data())})
	case 2:
		if command {
			x["P"] = d.ref(d.text())
		}
	}
	return x
}

func (d *vRich) act() Object {
	if d.r.coin(10) {
		return d.junk()
	}
	x := Dictionary{"S": d.ref(Name(d.r.pick("Launch", "Launch", "GoToR", "URI", "JavaScript", "SubmitForm")))}
	s := d.obj(x["S"]) == Name("Launch")
	switch d.r.n(4) {
	case 0:
		x["F"] = d.ref(d.text())
	case 1:
		x["F"] = d.ref(d.filespec(false))
	}
	if s && d.r.coin(2) {
		x["Win"] = d.ref(d.filespec(true))
	}
	if d.r.coin(3) {
		x["JS"] = d.script()
	}
	if d.r.coin(3) {
		x["URI"] = d.ref(d.text())
	}
	if d.r.coin(5) {
		x["Next"] = d.ref(d.node(0))
	}
	return d.ref(x)
}

func (d *vRich) script() Object {
	switch d.r.n(4) {
	case 0:
		return d.newStream(d.data())
	case 1:
		return d.ref(String("a();\nb(\"%s\");"))
	}
	return d.ref(d.text())
}

func (d *vRich) nametree(value func() Object, depth int) Object {
	x := Dictionary{}
	if !d.r.coin(4) {
		a := Array{}
		for k := d.r.n(4); k > 0; k-- {
			a = append(a, d.text(), value())
		}
		x["Names"] = d.ref(a)
	}
	if depth > 0 && d.r.coin(2) {
		a := Array{}
		for k := d.r.n(3); k > 0; k-- {
			a = append(a, d.nametree(value, depth-1))
		}
		x["Kids"] = d.ref(a)
	}
	return d.ref(x)
}

// node is a dictionary with some of what is reported.
func (d *vRich) node(depth int) Object {
	x := Dictionary{}
	for k := d.r.n(5); k > 0; k-- {
		switch d.r.n(13) {
		case 0:
			x["A"] = d.act()
		case 1:
			x["OpenAction"] = d.act()
		case 2:
			aa := Dictionary{}
			for j := d.r.n(4); j > 0; j-- {
				aa[d.r.pick("O", "C", "E", "X", "D")] = d.act()
			}
			x["AA"] = d.ref(aa)
		case 3:
			if d.r.coin(2) {
				x["XFA"] = d.newStream(d.data())
			} else {
				a := Array{}
				for j := d.r.n(5); j > 0; j-- {
					a = append(a, String("part"), d.newStream(d.data()))
				}
				x["XFA"] = d.ref(a)
			}
		case 4:
			x["EmbeddedFiles"] = d.nametree(func() Object {
				if d.r.coin(4) {
					return d.ref(d.text())
				}
				if d.r.coin(8) {
					return d.junk()
				}
				return d.ref(d.filespec(false))
			}, 2)
		case 5:
			x["URLS"] = d.nametree(func() Object { return d.junk() }, 2)
		case 6:
			x["JS"] = d.script()
		case 7:
			if d.r.coin(2) {
				x["URI"] = d.ref(d.text())
			} else {
				x["URI"] = d.ref(Dictionary{"Base": d.ref(d.text())})
			}
		case 8:
			if depth > 0 {
				x[d.r.pick("Names", "AcroForm", "Annots", "Foo")] = d.node(depth - 1)
			}
		case 9:
			if depth > 0 {
				a := Array{}
				for j := d.r.n(4); j > 0; j-- {
					a = append(a, d.node(depth-1))
				}
				x[d.r.pick("Kids", "Annots", "Bar")] = d.ref(a)
			}
		case 10:
			x[d.r.pick("A", "AA", "XFA", "JS", "URI", "URLS", "EmbeddedFiles", "OpenAction")] = d.junk()
		case 11:
			x["F"] = d.text()
		case 12:
			x["EF"] = Dictionary{"F": d.newStream(d.data())}
		}
	}
	if d.r.coin(12) {
		return Array{x, Array{d.ref(Dictionary{"URI": d.text()})}}
	}
	return d.ref(x)
}

func vRichDoc(r *vRand, evil []string) *vRich {
	d := &vRich{vDoc: vNewDoc(r), next: 20, evil: evil}
	for i := 1; i <= 3; i++ {
		d.add(i, d.node(3))
	}
	if r.coin(3) {
		d.stream(4, Dictionary{"A": d.act()}, []byte("x"))
	}
	return d
}

func vTree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case i.IsDir():
			m[rel] = "dir"
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "link " + t
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

var vReports = []string{"commands.txt", "contents.txt", "errors.txt", "files.txt", "javascript.js", "raw.pdf", "urls.txt"}

func vIsReport(n string) bool {
	for _, r := range vReports {
		if r == n {
			return true
		}
	}
	return false
}

func vSorted(s []string) []string {
	t := append([]string{}, s...)
	sort.Strings(t)
	return t
}

func vLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func vSameLines(got, want []string, trim bool) bool {
	if len(got) != len(want) {
		return false
	}
	fix := func(l []string) []string {
		t := []string{}
		for _, s := range l {
			if trim {
				s = strings.TrimRight(s, " ")
			}
			t = append(t, s)
		}
		return vSorted(t)
	}
	g, w := fix(got), fix(want)
	for i := range g {
		if g[i] != w[i] {
			return false
		}
	}
	return true
}

func TestVerifC21(t *testing.T) {
	n := vPick(1200, 12000)
	vRule("Parse on %d random documents with embedded files, forms and hostile file names, into a directory that is new or holds old files, links to files outside or a file; the whole scratch tree before and after is compared", n)
	r := vNewRand("C21")
	vOutputDocs(r, n, false)
	m := vPick(2000, 20000)
	vRule("%d direct DumpFile calls with random names and data", m)
	root := filepath.Join(vWorkDir(), "dump")
	out := filepath.Join(root, "a", "b", "out")
	os.MkdirAll(filepath.Dir(out), 0755)
	o, err := NewOutput(out)
	if err != nil {
		vWit("newoutput", "NewOutput in a new directory fails: %v", err)
		vDone()
		return
	}
	want := map[string]string{}
	manifest := ""
	for i := 0; i < m && vTimeLeft(); i++ {
		name := r.pick("a", "../x", "../../y", filepath.Join(root, "abs"), "", "a/b", "..", ".", "%s%d", "errors.txt", "raw.pdf", "n\x00ul", "日本")
		data := r.bytes(r.n(40))
		if r.coin(50) {
			data = bytes.Repeat(data, 3000)
		}
		vCall("DumpFile", name+" "+string(data), func() {
			o.DumpFile(name, data)
			h := fmt.Sprintf("%x", md5.Sum(data))
			want["a/b/out/"+h] = "file " + string(data)
			manifest += h + ":" + name + "\n"
			b, err := os.ReadFile(filepath.Join(out, h))
			if err != nil || !bytes.Equal(b, data) {
				vWit("dump", "DumpFile(%q, %s) leaves %s (%v) in the file named by the hash", name, vShow(string(data)), vShow(string(b)), err)
			}
		})
	}
	o.Close()
	for k, v := range vTree(root) {
		if k == "a/b/out/files.txt" && v == "file "+manifest {
			continue
		}
		if v == "dir" || strings.HasPrefix(k, "a/b/out/") && vIsReport(k[8:]) && v == "file " || want[k] == v {
			continue
		}
		vWit("stray", "%d calls of DumpFile leave %s = %s", m, k, vShow(v))
	}
	os.RemoveAll(root)
	vDone()
}

func TestVerifC22(t *testing.T) {
	n := vPick(2500, 25000)
	vRule("Parse on %d random documents with nested actions, file specifications, forms, name trees, scripts and links, direct or through references, well or wrongly typed; commands.txt, urls.txt, javascript.js and files.txt compared with the model as multisets of lines", n)
	vOutputDocs(vNewRand("C22"), n, true)
	vDone()
}

func vOutputDocs(r *vRand, n int, reports bool) {
	top := filepath.Join(vWorkDir(), "out21")
	for i := 0; i < n && vTimeLeft(); i++ {
		os.RemoveAll(top)
		out := filepath.Join(top, "p", "q", "out")
		evil := []string{"../evil", "../../evil", "../keep", filepath.Join(top, "abs"), "errors.txt", "commands.txt", "a/b", "..", "x/../../y", "keep"}
		d := vRichDoc(r, evil)
		text, _ := d.write(r.coin(2))
		in := string(text)
		os.MkdirAll(filepath.Join(top, "p", "q"), 0755)
		for _, k := range []string{"p/keep", "p/q/keep", "p/q/input.pdf"} {
			os.WriteFile(filepath.Join(top, k), []byte("keep "+k), 0644)
		}
		input := filepath.Join(top, "p", "q", "input.pdf")
		os.WriteFile(input, text, 0644)
		if !reports {
			switch r.n(5) {
			case 0:
				os.WriteFile(out, []byte("a file"), 0644)
			case 1:
				os.MkdirAll(filepath.Join(out, "old"), 0755)
				os.WriteFile(filepath.Join(out, "urls.txt"), []byte("old old old\n"), 0644)
				os.WriteFile(filepath.Join(out, "errors.txt"), []byte("old old old\n"), 0644)
			case 2:
				os.MkdirAll(out, 0755)
				for _, f := range vReports {
					os.Symlink(filepath.Join(top, "p", "keep"), filepath.Join(out, f))
				}
				for h := range d.report().dumps {
					os.Symlink(filepath.Join(top, "p", "q", "keep"), filepath.Join(out, h))
				}
			case 3:
				os.MkdirAll(out, 0755)
			}
		}
		before := vTree(top)
		vCall("Parse", in, func() {
			if err := Parse(input, "", out); err != nil {
				vWit("error", "Parse fails with %v on %s", err, vShowLong2(in))
				return
			}
			w := d.report()
			after := vTree(top)
			get := func(f string) []string {
				return vLines(strings.TrimPrefix(after["p/q/out/"+f], "file "))
			}
			if reports {
				cmp := func(f string, want []string, trim bool) {
					if got := get(f); !vSameLines(got, want, trim) {
						vWit(f, "%s holds %q, specified is %q in any order on %s", f, vSorted(got), vSorted(want), vShowLong2(in))
					}
				}
				cmp("commands.txt", w.commands, true)
				cmp("urls.txt", w.urls, false)
				cmp("javascript.js", w.js, false)
				cmp("files.txt", w.files, false)
				for h, b := range w.dumps {
					if after["p/q/out/"+h] != "file "+string(b) {
						vWit("data", "embedded file %s holds %s, specified is %s on %s", h, vShow(after["p/q/out/"+h]), vShow(string(b)), vShowLong2(in))
					}
				}
				return
			}
			for k, v := range before {
				if !strings.HasPrefix(k, "p/q/out") && after[k] != v {
					vWit("outside", "extraction changes %s outside the output directory on %s", k, vShowLong2(in))
				}
			}
			manifest := map[string]bool{}
			for _, l := range get("files.txt") {
				manifest[l] = true
			}
			if got := get("files.txt"); !vSameLines(got, w.files, false) {
				vWit("manifest", "files.txt holds %q, specified is %q in any order on %s", vSorted(got), vSorted(w.files), vShowLong2(in))
			}
			for k, v := range after {
				if !strings.HasPrefix(k, "p/q/out/") {
					if _, ok := before[k]; !ok && k != "p/q/out" {
						vWit("outside", "extraction creates %s outside the output directory on %s", k, vShowLong2(in))
					}
					continue
				}
				f := k[len("p/q/out/"):]
				if vIsReport(f) {
					if !strings.HasPrefix(v, "file ") {
						vWit("report", "%s is not a file on %s", f, vShowLong2(in))
					}
					continue
				}
				if before[k] == v {
					continue // was there
				}
				b := strings.TrimPrefix(v, "file ")
				if !strings.HasPrefix(v, "file ") || fmt.Sprintf("%x", md5.Sum([]byte(b))) != f {
					vWit("name", "extraction creates %s = %s, which is not named by its hash, on %s", f, vShow(v), vShowLong2(in))
				} else if _, ok := w.dumps[f]; !ok {
					vWit("surplus", "extraction creates %s = %s, which the document does not contain, on %s", f, vShow(b), vShowLong2(in))
				}
			}
			for h, b := range w.dumps {
				if after["p/q/out/"+h] != "file "+string(b) {
					vWit("data", "file %s holds %s, specified is %s on %s", h, vShow(after["p/q/out/"+h]), vShow(string(b)), vShowLong2(in))
				}
			}
		})
	}
	os.RemoveAll(top)
}

func vFds() map[string]string {
	m := map[string]string{}
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.HasPrefix(t, "/proc/") {
			m[e.Name()] = t
		}
	}
	return m
}

func vLeak(before map[string]string) string {
	s := []string{}
	for k, v := range vFds() {
		if before[k] != v {
			s = append(s, v)
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func TestVerifC24(t *testing.T) {
	vRule("NewOutput and Parse with every report, the document or the directory failing to open (descriptor limits, missing and read only directories, reports that are directories), with wrong passwords and broken documents; descriptors counted before and after")
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	top := filepath.Join(vWorkDir(), "out24")
	r := vNewRand("C24")
	good := func() []byte {
		d := vRichDoc(r, []string{"a", "b"})
		b, _ := d.write(r.coin(2))
		return b
	}
	fresh := func() string {
		filepath.Walk(top, func(p string, i os.FileInfo, err error) error { os.Chmod(p, 0755); return nil })
		os.RemoveAll(top)
		os.MkdirAll(top, 0755)
		return filepath.Join(top, "out")
	}
	check := func(what, out string) {
		for _, f := range vReports {
			st, err := os.Stat(filepath.Join(out, f))
			if err != nil || !st.Mode().IsRegular() {
				vWit("missing", "%s: %s is missing: %v", what, f, err)
			} else if st.Size() != 0 && strings.HasPrefix(what, "NewOutput") {
				vWit("nonempty", "%s: %s is not empty", what, f)
			}
		}
	}
	n := vPick(40, 400)
	for i := 0; i < n && vTimeLeft(); i++ {
		// plain starts, with and without old contents
		out := fresh()
		if i%2 == 1 {
			os.MkdirAll(out, 0755)
			for _, f := range vReports {
				os.WriteFile(filepath.Join(out, f), []byte("old"), 0644)
			}
		}
		if i%5 == 4 {
			out = filepath.Join(out, "deep", "er") // must be created
		}
		vCall("NewOutput", fmt.Sprint("fresh ", i), func() {
			before := vFds()
			o, err := NewOutput(out)
			if err != nil {
				vWit("new", "NewOutput fails with %v in a directory that can be created", err)
				return
			}
			check("NewOutput", out)
			for f, file := range map[string]*os.File{"commands.txt": o.Commands, "errors.txt": o.Errors, "files.txt": o.Files, "javascript.js": o.Javascript, "raw.pdf": o.Raw, "contents.txt": o.Text, "urls.txt": o.URLs} {
				if file == nil {
					vWit("nil", "NewOutput succeeds but has not opened %s", f)
					return
				}
				if filepath.Base(file.Name()) != f {
					vWit("swapped", "the report %s is written to %s", f, file.Name())
				}
				fmt.Fprint(file, "<"+f+">")
			}
			o.Close()
			if l := vLeak(before); l != "" {
				vWit("leak-close", "Close leaves %s open", l)
			}
			for _, f := range vReports {
				if b, _ := os.ReadFile(filepath.Join(out, f)); string(b) != "<"+f+">" {
					vWit("content", "report %s holds %s after writing <%s>", f, b, f)
				}
			}
		})
		// a directory that cannot be created
		out = fresh()
		os.WriteFile(out, []byte("x"), 0644)
		input := filepath.Join(top, "in.pdf")
		os.WriteFile(input, good(), 0644)
		bad := filepath.Join(out, "sub")
		vCall("Parse", "output under a file", func() {
			before := vFds()
			if err := Parse(input, "", bad); err == nil {
				vWit("no-error", "Parse into a directory that cannot be created succeeds")
			}
			if l := vLeak(before); l != "" {
				vWit("leak", "Parse into a directory that cannot be created leaves %s open", l)
			}
		})
		vCall("Parse", "missing document", func() {
			before := vFds()
			if err := Parse(filepath.Join(top, "none.pdf"), "", filepath.Join(top, "o")); err == nil {
				vWit("no-error-doc", "Parse of a missing document succeeds")
			}
			if l := vLeak(before); l != "" {
				vWit("leak", "Parse of a missing document leaves %s open", l)
			}
		})
		// read only parent
		if os.Getuid() != 0 {
			ro := filepath.Join(top, "ro")
			os.MkdirAll(ro, 0755)
			os.Chmod(ro, 0555)
			vCall("Parse", "read only directory", func() {
				before := vFds()
				if err := Parse(input, "", filepath.Join(ro, "out")); err == nil {
					vWit("no-error", "Parse into a directory that cannot be created succeeds")
				}
				if l := vLeak(before); l != "" {
					vWit("leak", "Parse into a read only directory leaves %s open", l)
				}
			})
			// a report that cannot be replaced: its folder is read only and holds a directory of that name
			for _, f := range vReports {
				out := fresh()
				os.WriteFile(input, good(), 0644)
				os.MkdirAll(filepath.Join(out, f, "x"), 0755)
				os.Chmod(filepath.Join(out, f), 0555)
				vCall("Parse", "blocked "+f, func() {
					before := vFds()
					if err := Parse(input, "", out); err == nil {
						if st, e := os.Stat(filepath.Join(out, f)); e != nil || !st.Mode().IsRegular() {
							vWit("no-error-report", "Parse succeeds though %s cannot be created", f)
						}
					}
					if l := vLeak(before); l != "" {
						vWit("leak", "Parse with %s blocked leaves %s open", f, l)
					}
				})
			}
		}
		// wrong password and other load errors
		out = fresh()
		vc := vNewDoc(r)
		vc.add(1, Dictionary{"JS": String("x")})
		vc.trailer["Encrypt"] = Dictionary{"Filter": Name("Standard"), "V": Number(1), "R": Number(2), "O": String("o"), "U": String(strings.Repeat("u", 32)), "P": Number(-1)}
		vc.trailer["ID"] = Array{String("id")}
		b, _ := vc.write(true)
		os.WriteFile(input, b, 0644)
		vCall("Parse", string(b), func() {
			before := vFds()
			if err := Parse(input, "pw", out); err == nil {
				vWit("no-error-load", "Parse succeeds though loading fails")
			}
			check("Parse", out)
			if l := vLeak(before); l != "" {
				vWit("leak", "Parse with a wrong password leaves %s open", l)
			}
		})
		// success
		out = fresh()
		b = good()
		os.WriteFile(input, b, 0644)
		vCall("Parse", string(b), func() {
			before := vFds()
			if err := Parse(input, "", out); err != nil {
				vWit("error", "Parse fails with %v", err)
			}
			check("Parse", out)
			if l := vLeak(before); l != "" {
				vWit("leak", "Parse leaves %s open", l)
			}
		})
	}
	// descriptors run out at each step
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old) == nil {
		for free := 0; free <= 9; free++ {
			for mode := 0; mode < 2; mode++ {
				out := fresh()
				input := filepath.Join(top, "in.pdf")
				os.WriteFile(input, good(), 0644)
				lim := old
				lim.Cur = 80
				if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim) != nil {
					break
				}
				var hold []int
				for {
					fd, err := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
					if err != nil {
						break
					}
					hold = append(hold, fd)
				}
				for k := 0; k < free && len(hold) > 0; k++ {
					syscall.Close(hold[len(hold)-1])
					hold = hold[:len(hold)-1]
				}
				open := func() int {
					c := 0
					for fd := 0; fd < 80; fd++ {
						if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFD, 0); e == 0 {
							c++
						}
					}
					return c
				}
				vCall("descriptors", fmt.Sprintf("%d free mode %d", free, mode), func() {
					before := open()
					need := 8
					var err error
					if mode == 0 {
						need = 7
						var o *Output
						o, err = NewOutput(out)
						if o != nil {
							o.Close()
						}
					} else {
						err = Parse(input, "", out)
					}
					if err == nil && free < need {
						vWit("no-error-limit", "with %d free descriptors (mode %d) no error is returned", free, mode)
					}
					if err != nil && free > need {
						vWit("error-limit", "with %d free descriptors (mode %d) it fails: %v", free, mode, err)
					}
					if after := open(); after != before {
						vWit("leak-limit", "with %d free descriptors (mode %d: 0 NewOutput, 1 Parse) %d descriptors stay open (error %v)", free, mode, after-before, err)
					}
				})
				for _, fd := range hold {
					syscall.Close(fd)
				}
				syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
			}
		}
	}
	fresh()
	os.RemoveAll(top)
	vDone()
}
