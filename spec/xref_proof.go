package pdf

// sp_ent is what a table of entries has for object k: its position, generation and kind,
// and whether it is encrypted; nothing if there is no entry.
func sp_ent(m map[int]*XrefEntry, k int) []int64 {
	if !HAS(m, k) {
		return []int64{}
	}
	return []int64{m[k].Offset, int64(m[k].Generation), int64(m[k].Type), ITE(m[k].IsEncrypted, int64(1), int64(0))}
}

// sp_tabentry is the entry a table has at i.
func sp_tabentry(d []byte, i int) []int64 {
	e := sp_int_end(d, i)
	return []int64{sp_int(d, i), sp_int(d, e), ITE(string(sp_keyword(d, sp_int_end(d, e))) == "n", int64(1), int64(0)), int64(1)}
}

// sp_tab is the last entry for object k among the subsections from i on, or v.
func sp_tab(d []byte, i int, k int, v []int64) []int64 {
	if i < 0 || !sp_isint(d, i) || !sp_isint(d, sp_int_end(d, i)) {
		return v
	}
	a := sp_int_end(d, i)
	return sp_section(d, sp_int_end(d, a), sp_int(d, i), sp_int(d, a), 0, k, v)
}

func sp_section(d []byte, i int, s int64, n int64, j int, k int, v []int64) []int64 {
	if int64(j) >= n || i < 0 {
		return sp_tab(d, i, k, v)
	}
	e := sp_int_end(d, i)
	if !sp_isint(d, i) {
		return sp_tab(d, e, k, v)
	}
	if !sp_isint(d, e) {
		return sp_tab(d, sp_int_end(d, e), k, v)
	}
	return sp_section(d, sp_keyword_end(d, sp_int_end(d, e)), s, n, j+1, k, ITE(k == int(s+int64(j)), sp_tabentry(d, i), v))
}

// sp_tab_end, sp_section_end: where the subsections end.
func sp_tab_end(d []byte, i int) int {
	a := sp_int_end(d, i)
	if i < 0 || !sp_isint(d, i) {
		return a
	}
	if !sp_isint(d, a) {
		return sp_int_end(d, a)
	}
	return sp_section_end(d, sp_int_end(d, a), sp_int(d, a), 0)
}

func sp_section_end(d []byte, i int, n int64, j int) int {
	if int64(j) >= n || i < 0 {
		return sp_tab_end(d, i)
	}
	e := sp_int_end(d, i)
	if !sp_isint(d, i) {
		return sp_tab_end(d, e)
	}
	if !sp_isint(d, e) {
		return sp_tab_end(d, sp_int_end(d, e))
	}
	return sp_section_end(d, sp_keyword_end(d, sp_int_end(d, e)), n, j+1)
}

// sp_trailer is the trailer of the table whose subsections start at i.
func sp_trailer(p *Parser, d []byte, i int) Dictionary {
	return sp_dictionary(p, noDecryptor, d, sp_keyword_end(d, sp_tab_end(d, i)))
}

// sp_prev is the position of the section before, if the trailer has one itself.
func sp_prev(t Dictionary) int64   { return int64(sp_numof(t["Prev"])) }
func sp_hasprev(t Dictionary) bool { return HAS(t, "Prev") && sp_isnum(t["Prev"]) }

// sp_tables: the section at off and those before it that are not loaded yet are tables,
// and their trailers name the section before directly.
func sp_tables(p *Parser, d []byte, off int64, seen map[int64]interface{}) bool {
	return HAS(seen, off) || string(sp_keyword(d, sp_seekpos(d, off))) == "xref" &&
		sp_tablesat(p, d, sp_keyword_end(d, sp_seekpos(d, off)), MPUT(seen, off, nil))
}

func sp_tablesat(p *Parser, d []byte, i int, seen map[int64]interface{}) bool {
	t := sp_trailer(p, d, i)
	return !HAS(t, "Prev") || !sp_isrefobj(t["Prev"]) && (!sp_hasprev(t) || sp_tables(p, d, sp_prev(t), seen))
}

// sp_loaded is the entry for object k once the table at off is loaded where there was v.
func sp_loaded(p *Parser, d []byte, off int64, seen map[int64]interface{}, k int, v []int64) []int64 {
	if HAS(seen, off) {
		return v
	}
	return sp_loadedat(p, d, sp_keyword_end(d, sp_seekpos(d, off)), MPUT(seen, off, nil), k, v)
}

func sp_loadedat(p *Parser, d []byte, i int, seen map[int64]interface{}, k int, v []int64) []int64 {
	t := sp_trailer(p, d, i)
	e := sp_tab(d, i, k, []int64{})
	if len(e) > 0 {
		return e
	}
	if !sp_hasprev(t) {
		return v
	}
	return sp_loaded(p, d, sp_prev(t), seen, k, v)
}

// sp_trailers are the entries of the trailer once the table at off is loaded.
func sp_trailers(p *Parser, d []byte, off int64, seen map[int64]interface{}, m Dictionary) Dictionary {
	if HAS(seen, off) {
		return m
	}
	return sp_trailersat(p, d, sp_keyword_end(d, sp_seekpos(d, off)), MPUT(seen, off, nil), m)
}

func sp_trailersat(p *Parser, d []byte, i int, seen map[int64]interface{}, m Dictionary) Dictionary {
	t := sp_trailer(p, d, i)
	if !sp_hasprev(t) {
		return MUNION(m, t)
	}
	return MUNION(sp_trailers(p, d, sp_prev(t), seen, m), t)
}

// sp_unseen is how many positions are not visited yet.
func sp_unseen(offsets map[int64]interface{}) int { return 0 }

// sp_sawone: visiting one leaves fewer.
func sp_sawone(offsets map[int64]interface{}, o int64) bool { return true }

// sp_keyof is the number of the object an entry is for.
func sp_keyof(e *XrefEntry) int { return 0 }

// sp_anyobj, sp_anykey: some object number, some key.
func sp_anyobj() int    { return 0 }
func sp_anykey() string { return "" }

// sp_same: two dictionaries have the same entry for k.
func sp_same(a Dictionary, b Dictionary, k string) bool {
	return HAS(a, k) == HAS(b, k) && (!HAS(a, k) || a[k] == b[k])
}

// sp_over: an entry overrides another.
func sp_over(e []int64, v []int64) []int64 { return ITE(len(e) > 0, e, v) }

// sp_noref: what stands under k is not a reference.
func sp_noref(t Dictionary, k string) bool { return !HAS(t, k) || !sp_isrefobj(t[k]) }

// sp_norefs: nor is any element of a from i on.
func sp_norefs(a Array, i int) bool {
	return i < 0 || i >= len(a) || !sp_isrefobj(a[i]) && sp_norefs(a, i+1)
}

// sp_plainstm: the dictionary of a cross-reference stream says what it says without references.
func sp_plainstm(t Dictionary) bool {
	return sp_noref(t, "Index") && sp_noref(t, "Size") && sp_noref(t, "W") && sp_norefs(sp_stmindex(t), 0) && sp_norefs(sp_arrof(t["W"]), 0)
}

// sp_stmindex is the index of a cross-reference stream.
func sp_stmindex(t Dictionary) Array {
	if HAS(t, "Index") && sp_isarray(t["Index"]) {
		return sp_arrof(t["Index"])
	}
	return Array{Number(0), sp_numof(t["Size"])}
}

// sp_hasindex: it has one, or a size to take its place.
func sp_hasindex(t Dictionary) bool {
	return HAS(t, "Index") && sp_isarray(t["Index"]) || HAS(t, "Size") && sp_isnum(t["Size"])
}

func sp_stmwidth(t Dictionary, i int) int { return int(sp_numof(sp_arrof(t["W"])[i])) }

func sp_haswidths(t Dictionary) bool {
	w := sp_arrof(t["W"])
	return HAS(t, "W") && sp_isarray(t["W"]) && len(w) >= 3 && sp_isnum(w[0]) && sp_isnum(w[1]) && sp_isnum(w[2])
}

// sp_stm is the last entry a cross-reference stream has for object k, or nothing.
func sp_stm(t Dictionary, d []byte, k int) []int64 {
	if !sp_hasindex(t) || !sp_haswidths(t) || int64(sp_stmwidth(t, 0)+sp_stmwidth(t, 1)+sp_stmwidth(t, 2)) <= 0 {
		return []int64{}
	}
	return sp_stmtab(sp_stmindex(t), 0, d, 0, sp_stmwidth(t, 0), sp_stmwidth(t, 1), sp_stmwidth(t, 2), k)
}

func sp_stmtab(a Array, i int, d []byte, o int, w0 int, w1 int, w2 int, k int) []int64 {
	if i < 0 || o < 0 || w0+w1+w2 <= 0 || i+1 >= len(a) || !sp_isnum(a[i]) || !sp_isnum(a[i+1]) {
		return []int64{}
	}
	return sp_stmsec(a, i, d, o, w0, w1, w2, int(sp_numof(a[i])), int(sp_numof(a[i+1])), 0, k)
}

func sp_stmsec(a Array, i int, d []byte, o int, w0 int, w1 int, w2 int, s int, n int, j int, k int) []int64 {
	if i < 0 || i >= len(a) || o < 0 || w0+w1+w2 <= 0 {
		return []int64{}
	}
	if j >= n {
		return sp_stmtab(a, i+2, d, o, w0, w1, w2, k)
	}
	if !sp_hasint(d, o, w0) || !sp_hasint(d, o+w0, w1) || !sp_hasint(d, o+w0+w1, w2) {
		return []int64{}
	}
	return sp_over(sp_stmsec(a, i, d, o+w0+w1+w2, w0, w1, w2, s, n, j+1, k), ITE(k == int(int64(s)+int64(j)), sp_stmentry(d, o, w0, w1, w2), []int64{}))
}

func sp_stmentry(d []byte, o int, w0 int, w1 int, w2 int) []int64 {
	return []int64{sp_intat(d, o+w0, w1), sp_intat(d, o+w0+w1, w2), ITE(w0 == 0, int64(1), sp_intat(d, o, w0)), int64(1)}
}

// sp_stmdict, sp_stmdata: the dictionary and the data of cross-reference stream n.
func sp_stmobj(p *Parser, n int) Object {
	return ITE(HAS(p.reading, n), Object(KEYWORD_NULL), sp_value(p, n))
}
func sp_stmdict(p *Parser, n int) Dictionary { return sp_dictof(sp_stmobj(p, n)) }
func sp_stmdata(p *Parser, n int) []byte {
	return ITE(HAS(p.reading, n), []byte{}, sp_read(p, n))
}

// sp_sorted is a with its elements in ascending order.
func sp_sorted(a []int64) []int64 { panic("uninterpreted") }

// sp_has: o is an element of a.
func sp_has(a []int64, o int64) bool {
	return len(a) > 0 && (a[len(a)-1] == o || sp_has(a[:len(a)-1], o))
}

// sp_nextmark is the position of the next xref or startxref from i on, or -1.
func sp_nextmark(d []byte, i int) int {
	if i < 0 || i >= len(d) {
		return -1
	}
	if string(sp_clip(d, i, 4)) == "xref" || string(sp_clip(d, i, 9)) == "startxref" {
		return i
	}
	return sp_nextmark(d, i+1)
}

func sp_marklen(d []byte, i int) int { return ITE(string(sp_clip(d, i, 4)) == "xref", 4, 9) }

// sp_marks are the positions of the words xref from i on.
func sp_marks(d []byte, i int) []int64 {
	j := sp_nextmark(d, i)
	if j < 0 {
		return []int64{}
	}
	if string(sp_clip(d, j, 4)) == "xref" {
		return CAT([]int64{int64(j)}, sp_marks(d, j+4))
	}
	return sp_marks(d, j+9)
}

// sp_nexthead, sp_nexthead_end: where the next thing that looks like the header of an
// object starts, from i on, or -1, and where it ends.
func sp_nexthead(d []byte, i int) int     { panic("uninterpreted") }
func sp_nexthead_end(d []byte, i int) int { panic("uninterpreted") }

// sp_heads is the position and generation of the last header of object k from i on, or v.
func sp_heads(d []byte, i int, k int, v []int64) []int64 {
	j := sp_nexthead(d, i)
	if i < 0 || j < i {
		return v
	}
	return sp_heads(d, sp_nexthead_end(d, i), k, ITE(sp_isheader(d, j) && sp_headnum(d, j) == k, []int64{int64(j), int64(sp_headgen(d, j))}, v))
}

// sp_headnum, sp_headgen: the number and the generation in the header at j.
func sp_headnum(d []byte, j int) int { return int(sp_int(d, j)) }
func sp_headgen(d []byte, j int) int { return int(sp_int(d, sp_int_end(d, j))) }

// sp_headstm: the object whose header is at j is a cross-reference stream.
func sp_headstm(p *Parser, d []byte, j int) bool {
	t := sp_dget(sp_dictionary(p, noDecryptor, d, sp_header_end(d, j)), "Type")
	return sp_isname(t) && sp_nameof(t) == "XRef"
}

// sp_headent is the entry of m that a header gives object k; nothing if there is none.
func sp_headent(m map[int]*XrefEntry, k int) []int64 {
	if !HAS(m, k) {
		return []int64{}
	}
	return []int64{m[k].Offset, int64(m[k].Generation)}
}

// sp_startat are the digits of the last startxref in b, nothing if there is none.
func sp_startat(b []byte) []byte { panic("uninterpreted") }

// sp_decimal: the digits are a position that fits; sp_decimalof is its value.
func sp_decimal(s []byte) bool    { panic("uninterpreted") }
func sp_decimalof(s []byte) int64 { panic("uninterpreted") }

// sp_ending is the end of the file, where startxref is looked for.
func sp_ending(d []byte) []byte { return sp_clip(d, ITE(len(d) > 256, len(d)-256, 0), 256) }

// sp_hasstartxref, sp_start: the end of the file names the position of a section.
func sp_hasstartxref(d []byte) bool {
	return len(sp_startat(sp_ending(d))) > 0 && sp_decimal(sp_startat(sp_ending(d)))
}
func sp_startxref(d []byte) int64 { return sp_decimalof(sp_startat(sp_ending(d))) }

// sp_anymark: some position.
func sp_anymark() int64 { return 0 }

// sp_listed is the entry the table at off has for object k, nothing if off has no table
// or the table no such entry.
func sp_listed(d []byte, off int64, k int) []int64 {
	if string(sp_keyword(d, sp_seekpos(d, off))) != "xref" {
		return []int64{}
	}
	return sp_tab(d, sp_keyword_end(d, sp_seekpos(d, off)), k, []int64{})
}

// sp_points: there is a header of object k at off.
func sp_points(d []byte, off int64, k int) bool {
	return sp_isheader(d, sp_seekpos(d, off)) && sp_headnum(d, sp_seekpos(d, off)) == k
}

// sp_fixed is the position of object k where the table says off and its last header is h.
func sp_fixed(d []byte, off int64, k int) int64 {
	h := sp_heads(d, 0, k, []int64{})
	if len(h) == 0 || sp_points(d, off, k) {
		return off
	}
	return h[0]
}

// sp_encrypted: object k is the encryption dictionary.
func sp_encryption(t Dictionary, k int) bool {
	return HAS(t, "Encrypt") && sp_isrefobj(t["Encrypt"]) && sp_refnum(t["Encrypt"]) == k
}

func sp_refnum(o Object) int {
	if r, ok := o.(*Reference); ok {
		return r.Number
	}
	return 0
}
