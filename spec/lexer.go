package pdf

// sp_comment is the position after the comment whose text starts at i.
func sp_comment(d []byte, i int) int {
	if i < 0 || i >= len(d) {
		return i
	}
	if d[i] == '\n' {
		return i + 1
	}
	if d[i] == '\r' {
		if i+1 < len(d) && d[i+1] == '\n' {
			return i + 2
		}
		return i + 1
	}
	return sp_comment(d, i+1)
}

// sp_skip is the position of the next byte at or after i that is neither white
// space nor part of a comment.
func sp_skip(d []byte, i int) int {
	if i < 0 || i >= len(d) {
		return i
	}
	if d[i] == '%' {
		return sp_skip(d, sp_comment(d, i+1))
	}
	if sp_ws(d[i]) {
		return sp_skip(d, i+1)
	}
	return i
}

// sp_isdigit: a decimal digit.
func sp_isdigit(b byte) bool { return b >= '0' && b <= '9' }

// sp_isdelim: the delimiter characters.
func sp_isdelim(b byte) bool {
	return b == '(' || b == ')' || b == '<' || b == '>' || b == '[' || b == ']' || b == '/' || b == '%'
}

// sp_regular: neither white space nor a delimiter.
func sp_regular(b byte) bool { return !sp_ws(b) && !sp_isdelim(b) }

// sp_digits_end is the end of the run of digits that starts at i.
func sp_digits_end(d []byte, i int) int {
	if i < 0 || i >= len(d) || !sp_isdigit(d[i]) {
		return i
	}
	return sp_digits_end(d, i+1)
}

// sp_digits is the value of v followed by the run of digits that starts at i.
func sp_digits(d []byte, i int, v int64) int64 {
	if i < 0 || i >= len(d) || !sp_isdigit(d[i]) {
		return v
	}
	return sp_digits(d, i+1, v*10+int64(d[i]-'0'))
}

// sp_isint: an integer is read at i.
func sp_isint(d []byte, i int) bool {
	return sp_skip(d, i) < len(d) && sp_isdigit(d[sp_skip(d, i)])
}

// sp_int, sp_int_end: the integer read at i and where it ends.
func sp_int(d []byte, i int) int64   { return sp_digits(d, sp_skip(d, i), 0) }
func sp_int_end(d []byte, i int) int { return sp_digits_end(d, sp_skip(d, i)) }

// sp_regular_end is the end of the run of regular characters that starts at i.
func sp_regular_end(d []byte, i int) int {
	if i < 0 || i >= len(d) || !sp_regular(d[i]) {
		return i
	}
	return sp_regular_end(d, i+1)
}

// sp_keyword, sp_keyword_end: the keyword read at i and where it ends.
func sp_keyword(d []byte, i int) []byte {
	return sp_sub(d, sp_skip(d, i), sp_keyword_end(d, i))
}
func sp_keyword_end(d []byte, i int) int { return sp_regular_end(d, sp_skip(d, i)) }

// sp_sub is d from i to j, empty when there is no such range.
func sp_sub(d []byte, i int, j int) []byte {
	if i < 0 || j > len(d) || i >= j {
		return []byte{}
	}
	return d[i:j]
}

// sp_msg is a message as it stands in the error report.
func sp_msg(m string) []byte { return CAT([]byte(m), []byte("\n")) }

// sp_msgif is a message or nothing.
func sp_msgif(c bool, m string) []byte {
	if c {
		return sp_msg(m)
	}
	return []byte{}
}

// sp_logs: messages of this parser are reported.
func sp_logs(p *Parser) bool { return p.output != nil && p.output.Errors != nil }

// sp_hexat: there is a hexadecimal digit at i.
func sp_hexat(d []byte, i int) bool { return i >= 0 && i < len(d) && sp_ishex(d[i]) }

// sp_esc_len is the number of digits of the # escape whose digits start at i.
func sp_esc_len(d []byte, i int) int {
	if !sp_hexat(d, i) {
		return 0
	}
	if !sp_hexat(d, i+1) {
		return 1
	}
	return 2
}

// sp_esc is the byte these digits give, missing digits counting as zero.
func sp_esc(d []byte, i int) byte {
	if !sp_hexat(d, i) {
		return 0
	}
	if !sp_hexat(d, i+1) {
		return byte(16 * sp_hexval(d[i]))
	}
	return byte(16*sp_hexval(d[i]) + sp_hexval(d[i+1]))
}

// sp_nm is the text of the name whose characters start at i.
func sp_nm(d []byte, i int) []byte {
	if i < 0 || i >= len(d) || !sp_regular(d[i]) {
		return []byte{}
	}
	if d[i] == '#' {
		return CAT([]byte{sp_esc(d, i+1)}, sp_nm(d, i+1+sp_esc_len(d, i+1)))
	}
	return CAT([]byte{d[i]}, sp_nm(d, i+1))
}

func sp_nm_end(d []byte, i int) int {
	if i < 0 || i >= len(d) || !sp_regular(d[i]) {
		return i
	}
	if d[i] == '#' {
		return sp_nm_end(d, i+1+sp_esc_len(d, i+1))
	}
	return sp_nm_end(d, i+1)
}

// sp_nm_esclog: the messages about the escape whose digits start at i.
func sp_nm_esclog(d []byte, i int) []byte {
	b := sp_esc(d, i)
	n := sp_esc_len(d, i)
	return CAT(sp_msgif(n < 2 && i+n < len(d), InvalidNameEscapeChar),
		sp_msgif(b >= '!' && b <= '~' && b != '#' && !sp_isdelim(b), UnnecessaryEscapeName))
}

func sp_nm_log(d []byte, i int) []byte {
	if i < 0 || i >= len(d) || !sp_regular(d[i]) {
		return []byte{}
	}
	if d[i] == '#' {
		return CAT(sp_nm_esclog(d, i+1), sp_nm_log(d, i+1+sp_esc_len(d, i+1)))
	}
	return sp_nm_log(d, i+1)
}

// sp_begins: a token that starts with c is read at i; sp_body is where its text starts.
func sp_begins(d []byte, i int, c byte) bool {
	return sp_skip(d, i) < len(d) && d[sp_skip(d, i)] == c
}

// sp_body is the position after the first byte of the token read at i.
func sp_body(d []byte, i int) int {
	if sp_skip(d, i) < len(d) {
		return sp_skip(d, i) + 1
	}
	return sp_skip(d, i)
}

// sp_name, sp_name_end, sp_name_log: the name read at i, where reading stops, the messages.
func sp_name(d []byte, i int) []byte {
	if sp_begins(d, i, '/') {
		return sp_nm(d, sp_body(d, i))
	}
	return []byte{}
}

func sp_name_end(d []byte, i int) int {
	if sp_begins(d, i, '/') {
		return sp_nm_end(d, sp_body(d, i))
	}
	return sp_body(d, i)
}

func sp_name_log(d []byte, i int) []byte {
	if sp_begins(d, i, '/') {
		return sp_nm_log(d, sp_body(d, i))
	}
	return []byte{}
}

// sp_hx is the bytes of the hex string whose digits start at i; sp_hx2 the same
// when a first digit a was read.
func sp_hx(d []byte, i int) []byte {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) || d[j] == '>' {
		return []byte{}
	}
	if !sp_ishex(d[j]) {
		return sp_hx(d, j+1)
	}
	return sp_hx2(d, j+1, d[j])
}

func sp_hx2(d []byte, i int, a byte) []byte {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) || d[j] == '>' {
		return []byte{byte(16 * sp_hexval(a))}
	}
	if !sp_ishex(d[j]) {
		return sp_hx2(d, j+1, a)
	}
	return CAT([]byte{byte(16*sp_hexval(a) + sp_hexval(d[j]))}, sp_hx(d, j+1))
}

func sp_hx_end(d []byte, i int) int {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return j
	}
	if d[j] == '>' {
		return j + 1
	}
	return sp_hx_end(d, j+1)
}

func sp_hx_log(d []byte, i int) []byte {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return sp_msg(UnclosedHexString)
	}
	if d[j] == '>' {
		return []byte{}
	}
	if !sp_ishex(d[j]) {
		return CAT(sp_msg(InvalidHexStringChar), sp_hx_log(d, j+1))
	}
	return sp_hx_log(d, j+1)
}

// sp_hex, sp_hex_end, sp_hex_log: the hex string read at i.
func sp_hex(d []byte, i int) []byte {
	if sp_begins(d, i, '<') {
		return sp_hx(d, sp_body(d, i))
	}
	return []byte{}
}

func sp_hex_end(d []byte, i int) int {
	if sp_begins(d, i, '<') {
		return sp_hx_end(d, sp_body(d, i))
	}
	return sp_body(d, i)
}

func sp_hex_log(d []byte, i int) []byte {
	if sp_begins(d, i, '<') {
		return sp_hx_log(d, sp_body(d, i))
	}
	return []byte{}
}

// sp_octat: there is an octal digit at i.
func sp_octat(d []byte, i int) bool { return i >= 0 && i < len(d) && d[i] >= '0' && d[i] <= '7' }

// sp_oct_big: three octal digits starting at i give more than a byte.
func sp_oct_big(d []byte, i int) bool {
	return sp_octat(d, i) && sp_octat(d, i+1) && sp_octat(d, i+2) && d[i] > '3'
}

// sp_oct_len is the number of digits of the octal code that starts at i.
func sp_oct_len(d []byte, i int) int {
	if !sp_octat(d, i+1) {
		return 1
	}
	if !sp_octat(d, i+2) || sp_oct_big(d, i) {
		return 2
	}
	return 3
}

func sp_oct(d []byte, i int) byte {
	if sp_oct_len(d, i) == 1 {
		return d[i] - '0'
	}
	if sp_oct_len(d, i) == 2 {
		return byte(int(d[i]-'0')*8 + int(d[i+1]-'0'))
	}
	return byte(int(d[i]-'0')*64 + int(d[i+1]-'0')*8 + int(d[i+2]-'0'))
}

// sp_unesc is the byte a backslash followed by e stands for.
func sp_unesc(e byte) byte {
	if e == 'n' {
		return '\n'
	}
	if e == 'r' {
		return '\r'
	}
	if e == 't' {
		return '\t'
	}
	if e == 'b' {
		return '\b'
	}
	if e == 'f' {
		return '\f'
	}
	return e
}

// sp_escape_end is the position after the escape sequence whose backslash is at i.
func sp_escape_end(d []byte, i int) int {
	if i+1 >= len(d) {
		return i + 1
	}
	if d[i+1] == '\r' && i+2 < len(d) && d[i+2] == '\n' {
		return i + 3
	}
	if sp_octat(d, i+1) {
		return i + 1 + sp_oct_len(d, i+1)
	}
	return i + 2
}

// sp_escape is what the escape sequence stands for.
func sp_escape(d []byte, i int) []byte {
	if i+1 >= len(d) {
		return []byte{'\\'}
	}
	if d[i+1] == '\n' || d[i+1] == '\r' {
		return []byte{}
	}
	if sp_octat(d, i+1) {
		return []byte{sp_oct(d, i+1)}
	}
	return []byte{sp_unesc(d[i+1])}
}

// sp_str is the bytes of the string whose text starts at i with n open parentheses.
func sp_str(d []byte, i int, n int) []byte {
	if i < 0 || i >= len(d) {
		return []byte{}
	}
	if d[i] == '\\' {
		return CAT(sp_escape(d, i), sp_str(d, sp_escape_end(d, i), n))
	}
	if d[i] == ')' {
		if n == 1 {
			return []byte{}
		}
		return CAT([]byte{')'}, sp_str(d, i+1, n-1))
	}
	if d[i] == '(' {
		return CAT([]byte{'('}, sp_str(d, i+1, n+1))
	}
	return CAT([]byte{d[i]}, sp_str(d, i+1, n))
}

func sp_str_end(d []byte, i int, n int) int {
	if i < 0 || i >= len(d) {
		return i
	}
	if d[i] == '\\' {
		return sp_str_end(d, sp_escape_end(d, i), n)
	}
	if d[i] == ')' {
		if n == 1 {
			return i + 1
		}
		return sp_str_end(d, i+1, n-1)
	}
	if d[i] == '(' {
		return sp_str_end(d, i+1, n+1)
	}
	return sp_str_end(d, i+1, n)
}

// sp_octlog: the messages about the octal code that starts at i.
func sp_octlog(d []byte, i int) []byte {
	b := sp_oct(d, i)
	n := sp_oct_len(d, i)
	return CAT(sp_msgif(n < 3 && i+n >= len(d), UnclosedStringOctal),
		CAT(sp_msgif(sp_oct_big(d, i), InvalidOctal),
			sp_msgif(b >= '!' && b <= '~' && b != '\\' && b != '(' && b != ')', UnnecessaryEscapeString)))
}

// sp_str_log: the messages about the rest of a string.
func sp_str_log(d []byte, i int, n int) []byte {
	if i < 0 || i >= len(d) {
		return sp_msg(UnclosedString)
	}
	if d[i] == '\\' {
		if i+1 >= len(d) || d[i+1] == '\r' && i+2 >= len(d) {
			return sp_msg(UnclosedStringEscape)
		}
		if sp_octat(d, i+1) {
			return CAT(sp_octlog(d, i+1), sp_str_log(d, sp_escape_end(d, i), n))
		}
		return sp_str_log(d, sp_escape_end(d, i), n)
	}
	if d[i] == ')' {
		if n == 1 {
			return []byte{}
		}
		return sp_str_log(d, i+1, n-1)
	}
	if d[i] == '(' {
		return sp_str_log(d, i+1, n+1)
	}
	return sp_str_log(d, i+1, n)
}

// sp_string, sp_string_end, sp_string_log: the literal string read at i.
func sp_string(d []byte, i int) []byte {
	if sp_begins(d, i, '(') {
		return sp_str(d, sp_body(d, i), 1)
	}
	return []byte{}
}

func sp_string_end(d []byte, i int) int {
	if sp_begins(d, i, '(') {
		return sp_str_end(d, sp_body(d, i), 1)
	}
	return sp_body(d, i)
}

func sp_string_log(d []byte, i int) []byte {
	if sp_begins(d, i, '(') {
		return sp_str_log(d, sp_body(d, i), 1)
	}
	return []byte{}
}

// sp_frac is v plus the decimal fraction whose digits start at i.
func sp_frac(d []byte, i int, v float64, scale float64) float64 {
	if i < 0 || i >= len(d) || !sp_isdigit(d[i]) {
		return v
	}
	return sp_frac(d, i+1, v+float64(d[i]-'0')/scale, scale*10)
}

// sp_dec is the value of the integer digits v followed by the rest of a decimal number at i.
func sp_dec(d []byte, i int, v float64) float64 {
	if i < 0 || i >= len(d) {
		return v
	}
	if d[i] == '.' {
		return sp_frac(d, i+1, v, 10)
	}
	if !sp_isdigit(d[i]) {
		return v
	}
	return sp_dec(d, i+1, v*10+float64(d[i]-'0'))
}

func sp_dec_end(d []byte, i int) int {
	if i < 0 || i >= len(d) {
		return i
	}
	if d[i] == '.' {
		return sp_digits_end(d, i+1)
	}
	if !sp_isdigit(d[i]) {
		return i
	}
	return sp_dec_end(d, i+1)
}

// sp_number, sp_number_end: the number read at i.
func sp_number(d []byte, i int) float64 {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return 0
	}
	if d[j] == '-' {
		return -sp_dec(d, j+1, 0)
	}
	if d[j] == '+' {
		return sp_dec(d, j+1, 0)
	}
	return sp_dec(d, j, 0)
}

func sp_number_end(d []byte, i int) int {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return j
	}
	if d[j] == '-' || d[j] == '+' {
		return sp_dec_end(d, j+1)
	}
	return sp_dec_end(d, j)
}

// sp_clip is up to n bytes of d from position i on.
func sp_clip(d []byte, i int, n int) []byte {
	if i < 0 || i >= len(d) || n <= 0 {
		return []byte{}
	}
	if i+n > len(d) {
		return d[i:]
	}
	return d[i : i+n]
}

// sp_reader is the reader a parser reads from, or the reader itself.
func sp_reader(r any) any {
	if p, ok := r.(*Parser); ok {
		return p.Reader
	}
	return r
}
