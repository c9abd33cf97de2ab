package pdf

import "fmt"

// sp_show is how an object is written.
func sp_show(o Object) []byte {
	if d, ok := o.(Dictionary); ok {
		return CAT([]byte("<<"), CAT(sp_show_pairs(d, 0), []byte(">>")))
	}
	if a, ok := o.(Array); ok {
		return CAT([]byte("["), CAT(sp_show_elems(a, 0), []byte("]")))
	}
	if s, ok := o.(String); ok {
		return []byte("(" + string(s) + ")")
	}
	if n, ok := o.(Name); ok {
		return []byte("/" + string(n))
	}
	if n, ok := o.(Number); ok {
		return []byte(fmt.Sprint(float64(n)))
	}
	if k, ok := o.(Keyword); ok {
		return []byte(string(k))
	}
	if r, ok := o.(*Reference); ok {
		return []byte(fmt.Sprint(r.Number) + " " + fmt.Sprint(r.Generation) + " R")
	}
	return sp_other(o)
}

// sp_other: nothing is said of other objects.
func sp_other(o Object) []byte { panic("uninterpreted") }

func sp_show_pairs(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT([]byte("/"+sp_dictkeys(d)[i]+" "), CAT(sp_show(d[sp_dictkeys(d)[i]]), sp_show_pairs(d, i+1)))
}

func sp_show_elems(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	if i == len(a)-1 {
		return sp_show(a[i])
	}
	return CAT(sp_show(a[i]), CAT([]byte(" "), sp_show_elems(a, i+1)))
}

// sp_objtext is how a numbered object is written, sp_objhead how it begins.
func sp_objtext(n int, g int, v Object, nodata bool, data []byte) []byte {
	if nodata {
		return CAT(sp_objhead(n, g, v), []byte("endobj\n"))
	}
	return CAT(sp_objhead(n, g, v), CAT([]byte("stream\n"), CAT(data, []byte("\nendstream\nendobj\n"))))
}

func sp_objhead(n int, g int, v Object) []byte {
	return CAT([]byte(fmt.Sprint(n)+" "+fmt.Sprint(g)+" obj\n"), CAT(sp_show(v), []byte("\n")))
}

// sp_gen is the generation of object n.
func sp_gen(p *Parser, n int) int {
	if sp_inuse(p, n) {
		return p.Xref[n].Generation
	}
	return 0
}

// sp_xrefkeys is the order in which the objects of the table are ranged over.
func sp_xrefkeys(t map[int]*XrefEntry) []int { panic("uninterpreted") }

// sp_last: there is no object at i.
func sp_last(t map[int]*XrefEntry, i int) bool {
	return i < 0 || i >= len(sp_xrefkeys(t)) || !HAS(t, sp_xrefkeys(t)[i])
}

// sp_dumped is how object n of a document is written.
func sp_dumped(p *Parser, n int) []byte {
	return CAT(sp_objtext(n, sp_gen(p, n), sp_value(p, n), !sp_isstream(p, n), sp_read(p, n)), []byte("\n"))
}

// sp_doc_raw, ...: what the objects of a document from the i-th on add to the reports and
// the directory.
func sp_doc_raw(p *Parser, i int) []byte {
	if sp_last(p.Xref, i) {
		return []byte{}
	}
	if p.Xref[sp_xrefkeys(p.Xref)[i]].Type != XrefTypeIndirectObject {
		return sp_doc_raw(p, i+1)
	}
	return CAT(sp_dumped(p, sp_xrefkeys(p.Xref)[i]), sp_doc_raw(p, i+1))
}

func sp_doc_commands(p *Parser, i int) []byte {
	if sp_last(p.Xref, i) {
		return []byte{}
	}
	if p.Xref[sp_xrefkeys(p.Xref)[i]].Type != XrefTypeIndirectObject {
		return sp_doc_commands(p, i+1)
	}
	return CAT(sp_all_commands(sp_value(p, sp_xrefkeys(p.Xref)[i])), sp_doc_commands(p, i+1))
}

func sp_doc_urls(p *Parser, i int) []byte {
	if sp_last(p.Xref, i) {
		return []byte{}
	}
	if p.Xref[sp_xrefkeys(p.Xref)[i]].Type != XrefTypeIndirectObject {
		return sp_doc_urls(p, i+1)
	}
	return CAT(sp_all_urls(sp_value(p, sp_xrefkeys(p.Xref)[i])), sp_doc_urls(p, i+1))
}

func sp_doc_files(p *Parser, i int) []byte {
	if sp_last(p.Xref, i) {
		return []byte{}
	}
	if p.Xref[sp_xrefkeys(p.Xref)[i]].Type != XrefTypeIndirectObject {
		return sp_doc_files(p, i+1)
	}
	return CAT(sp_all_files(sp_value(p, sp_xrefkeys(p.Xref)[i])), sp_doc_files(p, i+1))
}

func sp_doc_scripts(p *Parser, i int) []byte {
	if sp_last(p.Xref, i) {
		return []byte{}
	}
	if p.Xref[sp_xrefkeys(p.Xref)[i]].Type != XrefTypeIndirectObject {
		return sp_doc_scripts(p, i+1)
	}
	return CAT(sp_all_scripts(sp_value(p, sp_xrefkeys(p.Xref)[i])), sp_doc_scripts(p, i+1))
}

func sp_doc_text(p *Parser, i int) []byte {
	if sp_last(p.Xref, i) {
		return []byte{}
	}
	if p.Xref[sp_xrefkeys(p.Xref)[i]].Type != XrefTypeIndirectObject {
		return sp_doc_text(p, i+1)
	}
	return CAT(sp_all_text(sp_value(p, sp_xrefkeys(p.Xref)[i])), sp_doc_text(p, i+1))
}

func sp_doc_dir(p *Parser, i int, dir map[string]string) map[string]string {
	if sp_last(p.Xref, i) {
		return dir
	}
	if p.Xref[sp_xrefkeys(p.Xref)[i]].Type != XrefTypeIndirectObject {
		return sp_doc_dir(p, i+1, dir)
	}
	return sp_doc_dir(p, i+1, sp_all_dir(sp_value(p, sp_xrefkeys(p.Xref)[i]), dir))
}
