package pdf

// sp_ws: the six white-space characters.
func sp_ws(b byte) bool {
	return b == 0 || b == 9 || b == 10 || b == 12 || b == 13 || b == 32
}

// sp_runlength is RunLengthDecode of d from index i on.
func sp_runlength(d []byte, i int) []byte {
	if i < 0 || i >= len(d) {
		return []byte{}
	}
	n := int(d[i])
	if n == 128 || i+1 >= len(d) {
		return []byte{}
	}
	if n < 128 {
		if i+n+2 > len(d) {
			return d[i+1:]
		}
		return CAT(d[i+1:i+n+2], sp_runlength(d, i+n+2))
	}
	return CAT(REP(d[i+1], 257-n), sp_runlength(d, i+2))
}

// sp_ishex, sp_hexval: hexadecimal digits.
func sp_ishex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func sp_hexval(b byte) int {
	if b >= '0' && b <= '9' {
		return int(b) - 48
	}
	if b >= 'a' && b <= 'f' {
		return int(b) - 87
	}
	return int(b) - 55
}

// sp_hexpair is the byte two digits denote; a pair with another character is dropped.
func sp_hexpair(a, b byte) []byte {
	if sp_ishex(a) && sp_ishex(b) {
		return []byte{byte(16*sp_hexval(a) + sp_hexval(b))}
	}
	return []byte{}
}

// sp_asciihex is ASCIIHexDecode of d from index i on.
func sp_asciihex(d []byte, i int) []byte {
	if i < 0 || i >= len(d) {
		return []byte{}
	}
	if sp_ws(d[i]) {
		return sp_asciihex(d, i+1)
	}
	if d[i] == '>' {
		return []byte{}
	}
	return sp_asciihex2(d, i+1, d[i])
}

// sp_asciihex2: the same when the first digit a of a pair was read.
func sp_asciihex2(d []byte, j int, a byte) []byte {
	if j < 0 || j >= len(d) || d[j] == '>' {
		return sp_hexpair(a, '0')
	}
	if sp_ws(d[j]) {
		return sp_asciihex2(d, j+1, a)
	}
	return CAT(sp_hexpair(a, d[j]), sp_asciihex(d, j+1))
}

// sp_be32 is the big endian form of a 32 bit number.
func sp_be32(v uint32) []byte {
	return []byte{byte(v / 16777216), byte(v / 65536), byte(v / 256), byte(v)}
}

// sp_a85pad completes a group of n digits with the highest digit.
func sp_a85pad(v uint32, n int) uint32 {
	if n <= 1 {
		return (((v*85+84)*85+84)*85+84)*85 + 84
	}
	if n == 2 {
		return ((v*85+84)*85+84)*85 + 84
	}
	if n == 3 {
		return (v*85+84)*85 + 84
	}
	if n == 4 {
		return v*85 + 84
	}
	return v
}

// sp_ascii85 is ASCII85Decode of d from index i on, n digits of value v being pending.
func sp_ascii85(d []byte, i int, v uint32, n int) []byte {
	if i < 0 || i >= len(d) || d[i] == '~' {
		if n > 1 && n < 5 {
			return sp_be32(sp_a85pad(v, n))[:n-1]
		}
		return []byte{}
	}
	if sp_ws(d[i]) {
		return sp_ascii85(d, i+1, v, n)
	}
	if d[i] == 'z' {
		if n != 0 {
			return sp_ascii85(d, i+1, v, n)
		}
		return CAT([]byte{0, 0, 0, 0}, sp_ascii85(d, i+1, v, n))
	}
	if d[i] < '!' || d[i] > 'u' {
		return sp_ascii85(d, i+1, v, n)
	}
	if n >= 4 {
		return CAT(sp_be32(v*85+uint32(d[i])-33), sp_ascii85(d, i+1, 0, 0))
	}
	return sp_ascii85(d, i+1, v*85+uint32(d[i])-33, n+1)
}
