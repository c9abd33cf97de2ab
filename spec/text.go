package pdf

// sp_code is the value of v followed by the bytes of b from i on, the first the most significant.
func sp_code(b []byte, i int, v int64) int64 {
	if i < 0 || i >= len(b) {
		return v
	}
	return sp_code(b, i+1, v*256+int64(b[i]))
}

// sp_glyphs is what the codes of w bytes each in b from i on stand for: what the
// character map says, or the bytes of the code.
func sp_glyphs(m map[int]string, w int, b []byte, i int) []byte {
	if i < 0 || w < 1 || i > len(b)-w {
		return []byte{}
	}
	k := int(sp_code(b[i:i+w], 0, 0))
	if HAS(m, k) {
		return CAT([]byte(m[k]), sp_glyphs(m, w, b, i+w))
	}
	return CAT(b[i:i+w], sp_glyphs(m, w, b, i+w))
}

// sp_ostr, sp_oname, sp_onum: the string, name or number the object at i is, where
// there is no file for references to refer to.
func sp_ostr(d []byte, i int) []byte {
	if sp_begins(d, i, '(') {
		return sp_string(d, sp_skip(d, i))
	}
	if sp_begins(d, i, '<') && !sp_begins2(d, i) {
		return sp_hex(d, sp_skip(d, i))
	}
	return []byte{}
}

func sp_oname(d []byte, i int) string {
	if sp_begins(d, i, '/') {
		return string(sp_name(d, sp_skip(d, i)))
	}
	return ""
}

func sp_onum(d []byte, i int) Number {
	j := sp_skip(d, i)
	if j >= 0 && j < len(d) && sp_numeric(d[j]) && !sp_isref(d, sp_number_end(d, j)) {
		return Number(sp_number(d, j))
	}
	return Number(0)
}

// sp_joined is the strings among the array elements from i on, joined.
func sp_joined(d []byte, i int) []byte {
	if sp_obj_err(d, i) == ReadError || sp_obj_err(d, i) == EndOfArray {
		return []byte{}
	}
	return CAT(sp_ostr(d, i), sp_joined(d, sp_obj_end(d, i)))
}

// sp_noop: there is no operand at i.
func sp_noop(d []byte, i int) bool { return sp_obj_err(d, i) != nil || sp_iskeyword(d, i) }

// sp_nops is the number of operands before the next keyword, sp_oppos where the k-th of them is.
func sp_nops(d []byte, i int) int {
	if sp_noop(d, i) {
		return 0
	}
	return 1 + sp_nops(d, sp_obj_end(d, i))
}

func sp_oppos(d []byte, i int, k int) int {
	if sp_noop(d, i) || k <= 0 {
		return i
	}
	return sp_oppos(d, sp_obj_end(d, i), k-1)
}

// sp_opstr, sp_opname, sp_opnum, sp_opstrs: the k-th operand as a string, name, number,
// array of strings.
func sp_opstr(d []byte, i int, k int) []byte {
	if k < 0 || k >= sp_nops(d, i) {
		return []byte{}
	}
	return sp_ostr(d, sp_oppos(d, i, k))
}

func sp_opname(d []byte, i int, k int) string {
	if k < 0 || k >= sp_nops(d, i) {
		return ""
	}
	return sp_oname(d, sp_oppos(d, i, k))
}

func sp_opnum(d []byte, i int, k int) Number {
	if k < 0 || k >= sp_nops(d, i) {
		return Number(0)
	}
	return sp_onum(d, sp_oppos(d, i, k))
}

func sp_opstrs(d []byte, i int, k int) []byte {
	if k < 0 || k >= sp_nops(d, i) || !sp_begins(d, sp_oppos(d, i, k), '[') {
		return []byte{}
	}
	return sp_joined(d, sp_skip(d, sp_oppos(d, i, k))+1)
}

// sp_bfput is m with the codes of a range mapped from the j-th on: the last byte of
// what they stand for counts up.
func sp_bfput(m map[int]string, start int, prefix []byte, last byte, n int, j int) map[int]string {
	if j > n || j >= max_bf_range_size {
		return m
	}
	return sp_bfput(MPUT(m, int(int64(start)+int64(j)), string(CAT(prefix, []byte{last + byte(j)}))), start, prefix, last, n, j+1)
}

// sp_bytes is the value of bytes, the first the most significant.
func sp_bytes(b []byte) int { return int(sp_code(b, 0, 0)) }

// sp_lastint is the last operand of the command read at i as an integer.
func sp_lastint(d []byte, i int) int { return int(sp_opnum(d, i, sp_nops(d, i)-1)) }

// sp_cmap is m with the codes that the character map from i on maps; sp_bfrange and
// sp_bfchar when n entries of a section follow.
func sp_cmap(d []byte, i int, m map[int]string) map[int]string {
	e := sp_cmd_end(d, i)
	if sp_cmd_err(d, i) == ReadError {
		return m
	}
	if sp_cmd_word(d, i) == "beginbfrange" {
		return sp_bfrange(d, e, sp_lastint(d, i), m)
	}
	if sp_cmd_word(d, i) == "beginbfchar" {
		return sp_bfchar(d, e, sp_lastint(d, i), m)
	}
	return sp_cmap(d, e, m)
}

func sp_bfrange(d []byte, i int, n int, m map[int]string) map[int]string {
	if n <= 0 {
		return sp_cmap(d, i, m)
	}
	a := sp_hex_end(d, i)
	if len(sp_hex(d, i)) == 0 {
		return sp_cmap(d, a, m)
	}
	b := sp_hex_end(d, a)
	if len(sp_hex(d, a)) == 0 {
		return sp_cmap(d, b, m)
	}
	e := sp_hex_end(d, b)
	v := sp_hex(d, b)
	if len(v) == 0 {
		return sp_cmap(d, e, m)
	}
	start := sp_bytes(sp_hex(d, i))
	return sp_bfrange(d, e, n-1, sp_bfput(m, start, v[:len(v)-1], v[len(v)-1], int(int64(sp_bytes(sp_hex(d, a)))-int64(start)), 0))
}

func sp_bfchar(d []byte, i int, n int, m map[int]string) map[int]string {
	if n <= 0 {
		return sp_cmap(d, i, m)
	}
	a := sp_hex_end(d, i)
	if len(sp_hex(d, i)) == 0 {
		return sp_cmap(d, a, m)
	}
	b := sp_hex_end(d, a)
	if len(sp_hex(d, a)) == 0 {
		return sp_cmap(d, b, m)
	}
	return sp_bfchar(d, b, n-1, MPUT(m, sp_bytes(sp_hex(d, i)), string(sp_hex(d, a))))
}

// sp_cmapwidth is the number of bytes of a code after the character map from i on,
// which is w so far.
func sp_cmapwidth(d []byte, i int, w int) int {
	e := sp_cmd_end(d, i)
	if sp_cmd_err(d, i) == ReadError {
		return w
	}
	if sp_cmd_word(d, i) == "beginbfrange" {
		return sp_bfrange_width(d, e, sp_lastint(d, i), w)
	}
	if sp_cmd_word(d, i) == "beginbfchar" {
		return sp_bfchar_width(d, e, sp_lastint(d, i), w)
	}
	return sp_cmapwidth(d, e, w)
}

func sp_bfrange_width(d []byte, i int, n int, w int) int {
	if n <= 0 {
		return sp_cmapwidth(d, i, w)
	}
	a := sp_hex_end(d, i)
	v := len(sp_hex(d, i))
	if v == 0 {
		return sp_cmapwidth(d, a, w)
	}
	b := sp_hex_end(d, a)
	if len(sp_hex(d, a)) == 0 {
		return sp_cmapwidth(d, b, v)
	}
	e := sp_hex_end(d, b)
	if len(sp_hex(d, b)) == 0 {
		return sp_cmapwidth(d, e, v)
	}
	return sp_bfrange_width(d, e, n-1, v)
}

func sp_bfchar_width(d []byte, i int, n int, w int) int {
	if n <= 0 {
		return sp_cmapwidth(d, i, w)
	}
	a := sp_hex_end(d, i)
	v := len(sp_hex(d, i))
	if v == 0 {
		return sp_cmapwidth(d, a, w)
	}
	b := sp_hex_end(d, a)
	if len(sp_hex(d, a)) == 0 {
		return sp_cmapwidth(d, b, v)
	}
	return sp_bfchar_width(d, b, n-1, v)
}

// sp_text is the text the content stream from i on shows; sp_block within a text block,
// the font having character map m and codes of w bytes.
func sp_text(fonts Dictionary, d []byte, i int) []byte {
	e := sp_cmd_end(d, i)
	if sp_cmd_err(d, i) == ReadError {
		return []byte{}
	}
	if sp_cmd_word(d, i) == "BT" {
		return sp_block(fonts, d, e, map[int]string{}, 1)
	}
	return sp_text(fonts, d, e)
}

func sp_block(fonts Dictionary, d []byte, i int, m map[int]string, w int) []byte {
	e := sp_cmd_end(d, i)
	c := sp_cmd_word(d, i)
	n := sp_nops(d, i)
	if sp_cmd_err(d, i) == ReadError || c == "ET" {
		return sp_text(fonts, d, e)
	}
	if c == "Tf" {
		f := sp_opname(d, i, n-2)
		if HAS(fonts, f) {
			return sp_block(fonts, d, e, sp_fontmap(sp_dictof(sp_dget(fonts, f))), sp_fontwidth(sp_dictof(sp_dget(fonts, f))))
		}
		return sp_block(fonts, d, e, map[int]string{}, 1)
	}
	if c == "Tj" || c == "'" || c == "\"" {
		return CAT(sp_glyphs(m, w, sp_opstr(d, i, n-1), 0), CAT([]byte("\n"), sp_block(fonts, d, e, m, w)))
	}
	if c == "TJ" {
		return CAT(sp_glyphs(m, w, sp_opstrs(d, i, n-1), 0), CAT([]byte("\n"), sp_block(fonts, d, e, m, w)))
	}
	return sp_block(fonts, d, e, m, w)
}

// sp_fontmap, sp_fontwidth: the character map of a font and the width of its codes.
func sp_fontmap(d Dictionary) map[int]string {
	return sp_cmap(sp_dataof(sp_dat(d, "ToUnicode")), 0, map[int]string{})
}

func sp_fontwidth(d Dictionary) int { return sp_cmapwidth(sp_dataof(sp_dat(d, "ToUnicode")), 0, 1) }

// sp_fonts is the fonts of a page.
func sp_fonts(page Dictionary) Dictionary {
	return sp_dictof(sp_dget(sp_dictof(sp_dget(page, "Resources")), "Font"))
}

// sp_nofont: the font maps nothing, and its codes are bytes.
func sp_nofont(f *Font) bool { return EQ(f.Cmap, map[int]string{}) && f.Width == 1 }

// sp_pagetext is the text of a page: what its content stream or streams show.
func sp_pagetext(page Dictionary) []byte {
	c := sp_dat(page, "Contents")
	if sp_hasdata(c) {
		return sp_text(sp_fonts(page), sp_dataof(c), 0)
	}
	return sp_pagetexts(sp_fonts(page), sp_arrof(sp_dget(page, "Contents")))
}

func sp_pagetexts(fonts Dictionary, a Array) []byte {
	if len(a) == 0 {
		return []byte{}
	}
	return CAT(ITE(sp_hasdata(sp_aat(a, 0)), sp_text(fonts, sp_dataof(sp_aat(a, 0)), 0), []byte{}), sp_pagetexts(fonts, a[1:]))
}
