package pdf

// sp_at: the byte at i is c.
func sp_at(d []byte, i int, c byte) bool { return i >= 0 && i < len(d) && d[i] == c }

// sp_numeric: a number starts with c.
func sp_numeric(c byte) bool { return sp_isdigit(c) || c == '+' || c == '-' || c == '.' }

// sp_isref: the number that ends at i is the first part of a reference.
func sp_isref(d []byte, i int) bool {
	return sp_isint(d, i) && string(sp_keyword(d, sp_int_end(d, i))) == "R"
}

// sp_obj_err: the object read at i is not an object but an end marker, or there is nothing left.
func sp_obj_err(d []byte, i int) error {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return ReadError
	}
	if d[j] == ']' {
		return EndOfArray
	}
	if d[j] == ')' {
		return EndOfString
	}
	if d[j] == '>' {
		if sp_at(d, j+1, '>') {
			return EndOfDictionary
		}
		return EndOfHexString
	}
	return nil
}

// sp_obj_end is the position after the object read at i.
func sp_obj_end(d []byte, i int) int {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return j
	}
	if d[j] == '/' {
		return sp_name_end(d, j)
	}
	if d[j] == '[' {
		return sp_arr_end(d, j+1)
	}
	if d[j] == '(' {
		return sp_string_end(d, j)
	}
	if d[j] == '<' {
		if sp_at(d, j+1, '<') {
			return sp_dict_end(d, j+2)
		}
		return sp_hex_end(d, j)
	}
	if d[j] == '>' && sp_at(d, j+1, '>') {
		return j + 2
	}
	if d[j] == ']' || d[j] == ')' || d[j] == '>' {
		return j + 1
	}
	if sp_numeric(d[j]) {
		e := sp_number_end(d, j)
		if sp_isref(d, e) {
			return sp_keyword_end(d, sp_int_end(d, e))
		}
		return e
	}
	return sp_keyword_end(d, j)
}

// sp_arr_end is the position after the array whose elements start at i.
func sp_arr_end(d []byte, i int) int {
	if sp_obj_err(d, i) == ReadError || sp_obj_err(d, i) == EndOfArray {
		return sp_obj_end(d, i)
	}
	return sp_arr_end(d, sp_obj_end(d, i))
}

// sp_dict_end is the position after the dictionary whose entries start at i.
func sp_dict_end(d []byte, i int) int {
	e := sp_obj_end(d, i)
	if sp_obj_err(d, i) == ReadError || sp_obj_err(d, i) == EndOfDictionary {
		return e
	}
	if !sp_begins(d, i, '/') {
		return sp_dict_end(d, e)
	}
	if sp_obj_err(d, e) == ReadError || sp_obj_err(d, e) == EndOfDictionary {
		return sp_obj_end(d, e)
	}
	return sp_dict_end(d, sp_obj_end(d, e))
}

// sp_keywordobj, sp_nameobj: the object is a keyword, a name.
func sp_keywordobj(o Object) bool { _, ok := o.(Keyword); return ok }
func sp_nameobj(o Object) bool    { _, ok := o.(Name); return ok }

// sp_obj is the object read at i, strings being decrypted by x.
func sp_obj(p *Parser, x Decryptor, d []byte, i int) Object {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return KEYWORD_NULL
	}
	if d[j] == '/' {
		return Name(sp_name(d, j))
	}
	if d[j] == '[' {
		return sp_arr(p, x, d, j+1)
	}
	if d[j] == '(' {
		return String(sp_decrypt(x, sp_string(d, j)))
	}
	if d[j] == '<' {
		if sp_at(d, j+1, '<') {
			return sp_dict(p, x, d, j+2, Dictionary{})
		}
		return String(sp_decrypt(x, sp_hex(d, j)))
	}
	if d[j] == ']' || d[j] == ')' || d[j] == '>' {
		return KEYWORD_NULL
	}
	if sp_numeric(d[j]) {
		e := sp_number_end(d, j)
		if sp_isref(d, e) {
			return &Reference{p, int(sp_number(d, j)), int(sp_int(d, e))}
		}
		return Number(sp_number(d, j))
	}
	return Keyword(sp_keyword(d, j))
}

// sp_arr is the array whose elements start at i.
func sp_arr(p *Parser, x Decryptor, d []byte, i int) Array {
	if sp_obj_err(d, i) == ReadError || sp_obj_err(d, i) == EndOfArray {
		return Array{}
	}
	return append(Array{sp_obj(p, x, d, i)}, sp_arr(p, x, d, sp_obj_end(d, i))...)
}

// sp_dict is m with the entries of the dictionary whose entries start at i.
func sp_dict(p *Parser, x Decryptor, d []byte, i int, m Dictionary) Dictionary {
	if sp_obj_err(d, i) == ReadError || sp_obj_err(d, i) == EndOfDictionary {
		return m
	}
	e := sp_obj_end(d, i)
	if !sp_begins(d, i, '/') {
		return sp_dict(p, x, d, e, m)
	}
	if sp_obj_err(d, e) == ReadError || sp_obj_err(d, e) == EndOfDictionary {
		return m
	}
	return sp_dict(p, x, d, sp_obj_end(d, e), MPUT(m, string(sp_name(d, sp_skip(d, i))), sp_obj(p, x, d, e)))
}

// sp_obj_log: the messages reading the object at i leaves.
func sp_obj_log(d []byte, i int) []byte {
	j := sp_skip(d, i)
	if j < 0 || j >= len(d) {
		return []byte{}
	}
	if d[j] == '/' {
		return sp_name_log(d, j)
	}
	if d[j] == '[' {
		return sp_arr_log(d, j+1)
	}
	if d[j] == '(' {
		return sp_string_log(d, j)
	}
	if d[j] == '<' {
		if sp_at(d, j+1, '<') {
			return sp_dict_log(d, j+2)
		}
		return sp_hex_log(d, j)
	}
	return []byte{}
}

func sp_arr_log(d []byte, i int) []byte {
	if sp_obj_err(d, i) == ReadError {
		return sp_msg(UnclosedArray)
	}
	if sp_obj_err(d, i) == EndOfArray {
		return []byte{}
	}
	return CAT(sp_obj_log(d, i), sp_arr_log(d, sp_obj_end(d, i)))
}

func sp_dict_log(d []byte, i int) []byte {
	if sp_obj_err(d, i) == ReadError {
		return sp_msg(UnclosedDictionary)
	}
	if sp_obj_err(d, i) == EndOfDictionary {
		return []byte{}
	}
	e := sp_obj_end(d, i)
	if !sp_begins(d, i, '/') {
		return CAT(sp_obj_log(d, i), CAT(sp_msg(InvalidDictionaryKeyType), sp_dict_log(d, e)))
	}
	if sp_obj_err(d, e) == ReadError || sp_obj_err(d, e) == EndOfDictionary {
		return CAT(sp_obj_log(d, i), sp_msg(MissingDictionaryValue))
	}
	return CAT(sp_obj_log(d, i), CAT(sp_obj_log(d, e), sp_dict_log(d, sp_obj_end(d, e))))
}

// sp_array, sp_dictionary: the array or dictionary read at i.
func sp_array(p *Parser, x Decryptor, d []byte, i int) Array {
	if sp_begins(d, i, '[') {
		return sp_arr(p, x, d, sp_body(d, i))
	}
	return Array{}
}

func sp_array_end(d []byte, i int) int {
	if sp_begins(d, i, '[') {
		return sp_arr_end(d, sp_body(d, i))
	}
	return sp_body(d, i)
}

func sp_array_log(d []byte, i int) []byte {
	if sp_begins(d, i, '[') {
		return sp_arr_log(d, sp_body(d, i))
	}
	return []byte{}
}

func sp_begins2(d []byte, i int) bool {
	return sp_at(d, sp_skip(d, i), '<') && sp_at(d, sp_skip(d, i)+1, '<')
}

// sp_body2 is the position after the two bytes of a dictionary marker read at i.
func sp_body2(d []byte, i int) int {
	j := sp_skip(d, i)
	if j >= len(d) {
		return j
	}
	if j+1 == len(d) {
		return j + 1
	}
	return j + 2
}

func sp_dictionary(p *Parser, x Decryptor, d []byte, i int) Dictionary {
	if sp_begins2(d, i) {
		return sp_dict(p, x, d, sp_body2(d, i), Dictionary{})
	}
	return Dictionary{}
}

func sp_dictionary_end(d []byte, i int) int {
	if sp_begins2(d, i) {
		return sp_dict_end(d, sp_body2(d, i))
	}
	return sp_body2(d, i)
}

func sp_dictionary_log(d []byte, i int) []byte {
	if sp_begins2(d, i) {
		return sp_dict_log(d, sp_body2(d, i))
	}
	return []byte{}
}

// sp_iskeyword: the object read at i is a keyword.
func sp_iskeyword(d []byte, i int) bool {
	j := sp_skip(d, i)
	return j >= 0 && j < len(d) && sp_regular(d[j]) && !sp_numeric(d[j])
}

// sp_cmd: the operands before the next keyword, the keyword, the error, the end.
func sp_cmd(p *Parser, d []byte, i int) Array {
	if sp_obj_err(d, i) != nil || sp_iskeyword(d, i) {
		return Array{}
	}
	return append(Array{sp_obj(p, noDecryptor, d, i)}, sp_cmd(p, d, sp_obj_end(d, i))...)
}

func sp_cmd_err(d []byte, i int) error {
	if sp_obj_err(d, i) != nil || sp_iskeyword(d, i) {
		return sp_obj_err(d, i)
	}
	return sp_cmd_err(d, sp_obj_end(d, i))
}

func sp_cmd_word(d []byte, i int) string {
	if sp_obj_err(d, i) != nil {
		return "null"
	}
	if sp_iskeyword(d, i) {
		return string(sp_keyword(d, i))
	}
	return sp_cmd_word(d, sp_obj_end(d, i))
}

func sp_cmd_end(d []byte, i int) int {
	if sp_obj_err(d, i) != nil || sp_iskeyword(d, i) {
		return sp_obj_end(d, i)
	}
	return sp_cmd_end(d, sp_obj_end(d, i))
}

func sp_cmd_log(d []byte, i int) []byte {
	if sp_obj_err(d, i) != nil || sp_iskeyword(d, i) {
		return sp_obj_log(d, i)
	}
	return CAT(sp_obj_log(d, i), sp_cmd_log(d, sp_obj_end(d, i)))
}
