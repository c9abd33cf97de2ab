// The cryptographic primitives of the libraries: what they compute is
// uninterpreted, how the code uses them is proved.
spec sp_md5(b; r) uninterpreted
  ensures len(r) == 16

spec sp_rc4(key, data; r) uninterpreted
  ensures len(r) == len(data)

spec sp_cbc(key, iv, data; r) uninterpreted
  ensures len(r) == len(data)

spec sp_decrypt(x, data; r) sealed

spec sp_decryptor(c, n, g; r) sealed

spec sp_decrypt_other(x, data; r) uninterpreted

spec sp_decryptor_other(c, n, g; r) uninterpreted

ghost g_key, g_iv

immutable DecryptorNone, DecryptorRC4, DecryptorAES, CryptFilterNone, CryptFilterRC4, CryptFilterAES
holds CryptFilterRC4 sp_key_rc4filter
holds CryptFilterAES sp_key_aesfilter
holds DecryptorRC4 sp_key_rc4

extern crypto/md5.New(; h)
  ensures ISNEW(h)
  ensures len(g_buf(h)) == 0

extern io.Writer.Write(h, p; n, err)
  modifies g_buf(h)
  ensures EQ(g_buf(h), CAT(OLD(g_buf(h)), p))

extern hash.Hash.Sum(h, b; r)
  owns r
  ensures EQ(r, CAT(b, sp_md5(g_buf(h))))

extern crypto/rc4.NewCipher(key; c, err)
  ensures IFF(err == nil, 1 <= len(key) && len(key) <= 256)
  ensures IMP(err == nil, c != nil && ISNEW(c) && EQ(g_key(c), key) && g_off(c) == 0)
  ensures IMP(err != nil, c == nil)

extern crypto/rc4.Cipher.XORKeyStream(c, dst, src)
  requires c != nil && g_off(c) == 0 && len(dst) >= len(src)
  modifies g_off(c)
  mutates dst
  ensures EQ(dst, CAT(sp_rc4(g_key(c), OLD(src)), OLD(dst)[len(src):]))

extern crypto/aes.NewCipher(key; c, err)
  ensures IFF(err == nil, sp_aes_ok(key))
  ensures IMP(err == nil, c != nil && EQ(g_key(c), key))

extern crypto/cipher.NewCBCDecrypter(b, iv; c)
  requires len(iv) == 16
  ensures c != nil && EQ(g_key(c), g_key(b)) && EQ(g_iv(c), iv)

extern crypto/cipher.BlockMode.CryptBlocks(c, dst, src)
  requires len(src) % 16 == 0 && len(dst) >= len(src)
  mutates dst
  ensures EQ(dst, CAT(sp_cbc(g_key(c), g_iv(c), OLD(src)), OLD(dst)[len(src):]))

extern encoding/binary.littleEndian.PutUint32(e, b, v)
  requires len(b) >= 4
  mutates b
  ensures EQ(b, CAT(sp_le32(v), OLD(b)[4:]))

extern CryptFilter.NewDecryptor(c, n, g; x)
  ensures x == sp_decryptor(c, n, g)

extern Decryptor.Decrypt(x, data; r)
  mutates data
  ensures EQ(r, sp_decrypt(x, OLD(data)))

func CryptFilterNone.NewDecryptor(c, n, g; r)
  props C17
  reveal sp_decryptor
  ensures [C17] key: r == sp_decryptor(CryptFilter(c), n, g)

func CryptFilterRC4.NewDecryptor(c, n, g; r)
  props C17
  reveal sp_decryptor
  ensures [C17] key: r == sp_decryptor(CryptFilter(c), n, g)

func CryptFilterAES.NewDecryptor(c, n, g; r)
  props C17
  reveal sp_decryptor
  ensures [C17] key: r == sp_decryptor(CryptFilter(c), n, g)

func DecryptorNone.Decrypt(d, data; r)
  props C17
  reveal sp_decrypt
  ensures [C17] data: EQ(r, sp_decrypt(Decryptor(d), OLD(data)))

func DecryptorRC4.Decrypt(d, data; r)
  props C17
  reveal sp_decrypt
  mutates data
  ensures [C17] data: EQ(r, sp_decrypt(Decryptor(d), OLD(data)))

func DecryptorAES.Decrypt(d, data; r)
  props C17
  reveal sp_decrypt
  mutates data
  ensures [C17] data: EQ(r, sp_decrypt(Decryptor(d), OLD(data)))
