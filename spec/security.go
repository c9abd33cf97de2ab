package pdf

// sp_pad: the first 32 bytes of the password, filled up with the padding string.
func sp_pad(p []byte) []byte {
	if len(p) < 32 {
		return CAT(p, padding_string[:32-len(p)])
	}
	return p[:32]
}

// sp_hashed is what the file key is made of.
func sp_hashed(o, p, id []byte, r int, meta bool, pw []byte) []byte {
	if r >= 4 && !meta {
		return CAT(CAT(CAT(CAT(sp_pad(pw), o), p), id), []byte("\xff\xff\xff\xff"))
	}
	return CAT(CAT(CAT(sp_pad(pw), o), p), id)
}

// sp_rehash hashes a key of n bytes until it was hashed 50 times.
func sp_rehash(k []byte, n, i int) []byte {
	if i >= 50 {
		return k
	}
	return sp_rehash(sp_md5(k)[:n], n, i+1)
}

// sp_filekey is the file key of n bytes.
func sp_filekey(o, p, id []byte, r int, meta bool, pw []byte, n int) []byte {
	if r >= 3 {
		return sp_rehash(sp_md5(sp_hashed(o, p, id, r, meta, pw))[:n], n, 0)
	}
	return sp_md5(sp_hashed(o, p, id, r, meta, pw))[:n]
}

// sp_xorkey: each of the first n bytes of the key combined with b.
func sp_xorkey(k []byte, b byte, n int) []byte {
	if n <= 0 {
		return []byte{}
	}
	return CAT(sp_xorkey(k, b, n-1), []byte{k[n-1] ^ b})
}

// sp_rounds encrypts u with the key combined with i, i+1, ... 19.
func sp_rounds(k, u []byte, i int) []byte {
	if i >= 20 {
		return u
	}
	return sp_rounds(k, sp_rc4(sp_xorkey(k, byte(i), len(k)), u), i+1)
}

// The entries of the encryption dictionary.
func sp_enc(t Dictionary) Dictionary { return sp_dictof(sp_dget(t, "Encrypt")) }
func sp_enc_v(e Dictionary) int      { return int(sp_numof(sp_dget(e, "V"))) }
func sp_enc_r(e Dictionary) int      { return int(sp_numof(sp_dget(e, "R"))) }
func sp_enc_o(e Dictionary) []byte   { return []byte(sp_strof(sp_dget(e, "O"))) }
func sp_enc_u(e Dictionary) []byte   { return []byte(sp_strof(sp_dget(e, "U"))) }
func sp_enc_p(e Dictionary) []byte   { return sp_le32(uint32(int(sp_numof(sp_dget(e, "P"))))) }
func sp_enc_id(t Dictionary) []byte {
	return []byte(sp_strof(sp_aget(sp_arrof(sp_dget(t, "ID")), 0)))
}

func sp_enc_meta(e Dictionary) bool {
	return !sp_isbool(sp_dget(e, "EncryptMetadata")) || sp_boolof(sp_dget(e, "EncryptMetadata"))
}

// sp_clamp: keys have between 5 and 16 bytes.
func sp_clamp(n int) int {
	if n < 5 {
		return 5
	}
	if n > 16 {
		return 16
	}
	return n
}

// sp_enc_len is the length of the file key, which is 5 unless another is given.
func sp_enc_len(e Dictionary) int {
	if sp_enc_v(e) == 1 || !sp_isnum(sp_dget(e, "Length")) {
		return 5
	}
	return sp_clamp(int(sp_numof(sp_dget(e, "Length"))) / 8)
}

// sp_unusable: the encryption is of an unknown kind, or something is missing.
func sp_unusable(t Dictionary) error {
	e := sp_enc(t)
	if !sp_isdict(sp_dget(t, "Encrypt")) {
		return EncryptionError
	}
	if sp_nameof(sp_dget(e, "Filter")) != "Standard" {
		return EncryptionUnsupported
	}
	if sp_enc_v(e) != 1 && sp_enc_v(e) != 2 && sp_enc_v(e) != 4 || sp_enc_r(e) < 2 || sp_enc_r(e) > 4 {
		return EncryptionUnsupported
	}
	if !sp_isstr(sp_dget(e, "O")) || !sp_isstr(sp_dget(e, "U")) || !sp_isnum(sp_dget(e, "P")) {
		return EncryptionError
	}
	if !sp_isarray(sp_dget(t, "ID")) || !sp_isstr(sp_aget(sp_arrof(sp_dget(t, "ID")), 0)) {
		return EncryptionError
	}
	return nil
}

// sp_enc_key is the file key for a password and a length.
func sp_enc_key(t Dictionary, pw []byte, n int) []byte {
	e := sp_enc(t)
	return sp_filekey(sp_enc_o(e), sp_enc_p(e), sp_enc_id(t), sp_enc_r(e), sp_enc_meta(e), pw, n)
}

// sp_checked: the check value of the key is not the one stored.
func sp_checked(r int, key, u, id []byte) error {
	if r == 2 {
		if string(sp_rc4(key, padding_string)) != string(u) {
			return EncryptionPasswordError
		}
		return nil
	}
	if len(u) < 16 {
		return EncryptionError
	}
	if string(sp_rounds(key, sp_md5(CAT(padding_string, id)), 0)) != string(u[:16]) {
		return EncryptionPasswordError
	}
	return nil
}

// sp_init_err is the error of opening an encrypted document with a password.
func sp_init_err(t Dictionary, pw []byte) error {
	if sp_unusable(t) != nil {
		return sp_unusable(t)
	}
	return sp_checked(sp_enc_r(sp_enc(t)), sp_enc_key(t, pw, sp_enc_len(sp_enc(t))), sp_enc_u(sp_enc(t)), sp_enc_id(t))
}

// sp_cf_method is the method of crypt filter k, "" if there is none.
func sp_cf_method(cf Dictionary, k string) string {
	return sp_nameof(sp_dget(sp_dictof(sp_dget(cf, k)), "CFM"))
}

// sp_cf_known: crypt filter k is of a known kind.
func sp_cf_known(cf Dictionary, k string) bool {
	return HAS(cf, k) && (sp_cf_method(cf, k) == "None" || sp_cf_method(cf, k) == "V2" || sp_cf_method(cf, k) == "AESV2")
}

// sp_cf_len is the length of the keys of crypt filter k, n unless another is given: in
// bytes if it is at most 16, in bits otherwise.
func sp_cf_len(cf Dictionary, k string, n int) int {
	if sp_cf_method(cf, k) == "AESV2" {
		return 16
	}
	o := sp_dget(sp_dictof(sp_dget(cf, k)), "Length")
	if !sp_isnum(o) {
		return n
	}
	if int(sp_numof(o)) > 16 {
		return sp_clamp(int(sp_numof(o)) / 8)
	}
	return sp_clamp(int(sp_numof(o)))
}

// sp_cf_entry is crypt filter k, which does nothing if it is not in the table.
func sp_cf_entry(cf Dictionary, k string, o, p, id []byte, r int, meta bool, pw []byte, n int) CryptFilter {
	if !sp_cf_known(cf, k) || sp_cf_method(cf, k) == "None" {
		return noFilter
	}
	if sp_cf_method(cf, k) == "V2" {
		return &CryptFilterRC4{sp_filekey(o, p, id, r, meta, pw, sp_cf_len(cf, k, n))}
	}
	return &CryptFilterAES{sp_filekey(o, p, id, r, meta, pw, sp_cf_len(cf, k, n))}
}

// sp_pick is the crypt filter named by o, or else d.
func sp_pick(m map[string]CryptFilter, o Object, d CryptFilter) CryptFilter {
	if sp_isname(o) && HAS(m, sp_nameof(o)) {
		return m[sp_nameof(o)]
	}
	return d
}

// sp_plain: with V 4 nothing is encrypted unless a filter is named.
func sp_plain(v int, key []byte) CryptFilter {
	if v == 4 {
		return noFilter
	}
	return &CryptFilterRC4{key}
}

// sp_rc4by is the crypt filter that uses RC4 with keys made from the file key.
func sp_rc4by(key []byte) CryptFilter { return &CryptFilterRC4{key} }
