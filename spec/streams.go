package pdf

// sp_hasbody: a line end follows i (and a lone carriage return is not the last byte).
func sp_hasbody(d []byte, i int) bool {
	if i < 0 || i >= len(d) {
		return false
	}
	if d[i] == '\n' {
		return true
	}
	if d[i] == '\r' {
		return i+1 < len(d)
	}
	return sp_hasbody(d, i+1)
}

// sp_databegin is the position after the first line end at or after i.
func sp_databegin(d []byte, i int) int {
	if i < 0 || i >= len(d) {
		return len(d)
	}
	if d[i] == '\n' {
		return i + 1
	}
	if d[i] == '\r' {
		if sp_at(d, i+1, '\n') {
			return i + 2
		}
		return i + 1
	}
	return sp_databegin(d, i+1)
}

// sp_mark is the position of the first endstream marker at or after i, -1 if there is none.
func sp_mark(d []byte, i int) int {
	if i < 0 || i+9 > len(d) {
		return -1
	}
	if string(d[i:i+9]) == "endstream" {
		return i
	}
	return sp_mark(d, i+1)
}

// sp_chop removes one line end from the end of b.
func sp_chop(b []byte) []byte {
	n := len(b)
	if n > 1 && b[n-2] == '\r' && b[n-1] == '\n' {
		return b[:n-2]
	}
	if n > 0 && (b[n-1] == '\r' || b[n-1] == '\n') {
		return b[:n-1]
	}
	return b
}

// sp_raw is the data of the stream whose keyword ends at i.
func sp_raw(d []byte, i int) []byte {
	if !sp_hasbody(d, i) {
		return []byte{}
	}
	if sp_mark(d, sp_databegin(d, i)) < 0 {
		return d[sp_databegin(d, i):]
	}
	return sp_chop(d[sp_databegin(d, i):sp_mark(d, sp_databegin(d, i))])
}

// sp_raw_end is the position after the stream.
func sp_raw_end(d []byte, i int) int {
	if i >= len(d) {
		return i
	}
	if !sp_hasbody(d, i) || sp_mark(d, sp_databegin(d, i)) < 0 {
		return len(d)
	}
	return sp_mark(d, sp_databegin(d, i)) + 9
}

// sp_content is the stream whose keyword ends at i, decrypted and decoded.
func sp_content(x Decryptor, filters, parms Array, d []byte, i int) []byte {
	if !sp_hasbody(d, i) {
		return []byte{}
	}
	return sp_chain(filters, parms, sp_decrypt(x, sp_raw(d, i)), 0)
}

// sp_chain applies the filters from the k-th on.
func sp_chain(filters, parms Array, b []byte, k int) []byte {
	if k < 0 || k >= len(filters) {
		return b
	}
	return sp_chain(filters, parms, sp_decode(sp_nameof(sp_aget(filters, k)), b, sp_dictof(sp_aget(parms, k))), k+1)
}

// sp_decode applies one filter.
func sp_decode(filter string, b []byte, parms Dictionary) []byte {
	if len(b) == 0 {
		return b
	}
	if filter == "ASCIIHexDecode" {
		return sp_asciihex(b, 0)
	}
	if filter == "ASCII85Decode" {
		return sp_ascii85(b, 0, 0, 0)
	}
	if filter == "RunLengthDecode" {
		return sp_runlength(b, 0)
	}
	if filter == "FlateDecode" {
		return sp_flate(b, parms)
	}
	if filter == "LZWDecode" {
		return sp_lzwdecode(b, parms)
	}
	return b
}

// sp_flate: data that cannot be read at all is left alone.
func sp_flate(b []byte, parms Dictionary) []byte {
	if !sp_zlib_ok(b) || len(sp_inflate(b)) == 0 && sp_inflate_bad(b) {
		return b
	}
	return sp_predict(sp_inflate(b), parms)
}

func sp_lzwdecode(b []byte, parms Dictionary) []byte {
	if sp_intparm(parms, "EarlyChange", 1) == 0 {
		if len(sp_lzw0(b)) == 0 && sp_lzw0_bad(b) {
			return b
		}
		return sp_predict(sp_lzw0(b), parms)
	}
	if len(sp_lzw1(b)) == 0 && sp_lzw1_bad(b) {
		return b
	}
	return sp_predict(sp_lzw1(b), parms)
}

// sp_intparm is an integer parameter or its default.
func sp_intparm(d Dictionary, k string, def int) int {
	if sp_isnum(sp_dget(d, k)) {
		return int(sp_numof(sp_dget(d, k)))
	}
	return def
}
