package pdf

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
)

// What the cryptographic primitives of the libraries compute: uninterpreted in the proofs.
func sp_md5(b []byte) []byte { h := md5.Sum(b); return h[:] }

func sp_rc4(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		return data
	}
	r := make([]byte, len(data))
	c.XORKeyStream(r, data)
	return r
}

func sp_cbc(key, iv, data []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return data
	}
	r := make([]byte, len(data))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(r, data)
	return r
}

func sp_decrypt_other(x Decryptor, data []byte) []byte { return x.Decrypt(append([]byte{}, data...)) }
func sp_decryptor_other(c CryptFilter, n, g int) Decryptor { return c.NewDecryptor(n, g) }
