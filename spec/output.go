package pdf

// sp_plainname: s names a file in the directory it is joined to.
func sp_plainname(s string) bool {
	return len(s) > 0 && s[0] != '.' && sp_plainrest(s, 0)
}

// sp_plainrest: from i on s consists of digits, small letters and periods.
func sp_plainrest(s string, i int) bool {
	if i < 0 || i >= len(s) {
		return true
	}
	return (s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] == '.') && sp_plainrest(s, i+1)
}

// sp_hexdigit is the lower case hexadecimal digit for n.
func sp_hexdigit(n int) byte {
	if n < 10 {
		return byte(n + '0')
	}
	return byte(n - 10 + 'a')
}

// sp_lowhex is the lower case hexadecimal form of b.
func sp_lowhex(b []byte, i int) []byte {
	if i < 0 || i >= len(b) {
		return []byte{}
	}
	return CAT([]byte{sp_hexdigit(int(b[i]) / 16), sp_hexdigit(int(b[i]) % 16)}, sp_lowhex(b, i+1))
}
