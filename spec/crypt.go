package pdf

// sp_decrypt is what a decryptor makes of data.
func sp_decrypt(x Decryptor, data []byte) []byte {
	if _, ok := x.(*DecryptorNone); ok {
		return data
	}
	if a, ok := x.(*DecryptorRC4); ok {
		return sp_rc4(a.encryption_key, data)
	}
	if a, ok := x.(*DecryptorAES); ok {
		return sp_aesdata(a.encryption_key, data)
	}
	return sp_decrypt_other(x, data)
}

// sp_aesdata: the first block is the initialization vector, the last byte tells how many
// bytes of padding there are; data of another form is left alone.
func sp_aesdata(key, data []byte) []byte {
	if !sp_aes_ok(key) || len(data) < 16 || len(data)%16 != 0 {
		return data
	}
	return sp_unpad(sp_cbc(key, data[:16], data[16:]))
}

func sp_unpad(b []byte) []byte {
	if len(b) > 0 && b[len(b)-1] >= 1 && b[len(b)-1] <= 16 {
		return b[:len(b)-int(b[len(b)-1])]
	}
	return b
}

// sp_aes_ok: the key has one of the sizes of AES keys.
func sp_aes_ok(key []byte) bool { return len(key) == 16 || len(key) == 24 || len(key) == 32 }

// sp_decryptor is the decryptor a crypt filter provides for an object.
func sp_decryptor(c CryptFilter, n, g int) Decryptor {
	if _, ok := c.(*CryptFilterNone); ok {
		return &DecryptorNone{}
	}
	if a, ok := c.(*CryptFilterRC4); ok {
		return &DecryptorRC4{sp_objkey(a.encryption_key, CAT(a.encryption_key, sp_objid(n, g)))}
	}
	if a, ok := c.(*CryptFilterAES); ok {
		return &DecryptorAES{sp_objkey(a.encryption_key, CAT(CAT(a.encryption_key, sp_objid(n, g)), []byte("sAlT")))}
	}
	return sp_decryptor_other(c, n, g)
}

// sp_objid: the low three bytes of the object number and the low two of the generation.
func sp_objid(n, g int) []byte {
	return CAT(sp_le32(uint32(n))[:3], sp_le32(uint32(g))[:2])
}

// sp_objkey: the key of an object has up to five bytes more than the file key, at most 16.
func sp_objkey(key, salt []byte) []byte {
	if len(key)+5 > 16 {
		return sp_md5(salt)
	}
	return sp_md5(salt)[:len(key)+5]
}

// sp_le32 is the little endian form of a 32 bit number.
func sp_le32(v uint32) []byte {
	return []byte{byte(v), byte(v / 256), byte(v / 65536), byte(v / 16777216)}
}

// The keys of crypt filters and decryptors have between 5 and 16 bytes.
func sp_key_rc4filter(c *CryptFilterRC4) bool {
	return 5 <= len(c.encryption_key) && len(c.encryption_key) <= 16
}

func sp_key_aesfilter(c *CryptFilterAES) bool {
	return 5 <= len(c.encryption_key) && len(c.encryption_key) <= 16
}

func sp_key_rc4(d *DecryptorRC4) bool {
	return 5 <= len(d.encryption_key) && len(d.encryption_key) <= 16
}
