spec sp_pad(p; r)
  ensures len(r) == 32

spec sp_rehash(k, n, i; r)
  decreases 50 - i

spec sp_xorkey(k, b, n; r)
  ensures IMP(0 <= n, len(r) == n)
  decreases n

spec sp_rounds(k, u, i; r)
  decreases 20 - i

spec sp_filekey(o, p, id, r, meta, pw, n; k) sealed

spec sp_cf_known(cf, k; r) opaque

spec sp_cf_entry(cf, k, o, p, id, r, meta, pw, n; f) opaque

func SecurityHandler.computeEncryptionKey(sh, password, key_length; r)
  props C16 C17
  reveal sp_filekey
  requires 0 <= key_length && key_length <= 16
  ensures len(r) == key_length
  ensures [C16 C17] key: EQ(r, sp_filekey(sh.o, sh.p, sh.id, sh.r, sh.encrypt_meta_data, password, key_length))
  loop 1
    invariant len(encryption_key) == key_length
    invariant EQ(sp_rehash(encryption_key, key_length, i), sp_rehash(sp_md5(sp_hashed(sh.o, sh.p, sh.id, sh.r, sh.encrypt_meta_data, OLD(password)))[:key_length], key_length, 0))

func SecurityHandler.Init(sh, password, trailer; err)
  props C16 C17
  modifies sh.v, sh.length, sh.r, sh.o, sh.u, sh.p, sh.encrypt_meta_data, sh.id, sh.stream_filter, sh.string_filter, sh.file_filter, sh.crypt_filters, sh.encryption_key
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C16] error: err == OLD(sp_init_err(trailer, password))
  ensures [C16 C17] key: IMP(err == nil, EQ(sh.encryption_key, OLD(sp_enc_key(trailer, password, sp_enc_len(sp_enc(trailer))))))
  ensures [C17] whole: IMP(err == nil && OLD(sp_enc_r(sp_enc(trailer))) < 4, sh.stream_filter == sp_rc4by(sh.encryption_key) && sh.string_filter == sp_rc4by(sh.encryption_key) && sh.file_filter == sp_rc4by(sh.encryption_key))
  ensures [C17] identity: IMP(err == nil && OLD(sp_enc_r(sp_enc(trailer))) < 4, EQ(sh.crypt_filters, MPUT(map[string]CryptFilter{}, "Identity", CryptFilter(noFilter))))
  ensures [C17] names: IMP(err == nil && OLD(sp_enc_r(sp_enc(trailer))) == 4, ALL(func(k string) bool { return HAS(sh.crypt_filters, k) == (k == "Identity" || UNDER(sh.string_filter, sp_rc4by(sh.encryption_key), sp_cf_known(sp_dictof(sp_dget(OLD(sp_enc(trailer)), "CF")), k))) }))
  ensures [C17] filters: IMP(err == nil && OLD(sp_enc_r(sp_enc(trailer))) == 4, ALL(func(k string) bool { return IMP(HAS(sh.crypt_filters, k), sh.crypt_filters[k] == UNDER(sh.string_filter, sp_rc4by(sh.encryption_key), sp_cf_entry(sp_dictof(sp_dget(OLD(sp_enc(trailer)), "CF")), k, OLD(sp_enc_o(sp_enc(trailer))), OLD(sp_enc_p(sp_enc(trailer))), OLD(sp_enc_id(trailer)), 4, OLD(sp_enc_meta(sp_enc(trailer))), password, OLD(sp_enc_len(sp_enc(trailer)))))) }))
  ensures [C17] streams: IMP(err == nil && OLD(sp_enc_r(sp_enc(trailer))) == 4, sh.stream_filter == UNDER(sh.string_filter, sp_plain(OLD(sp_enc_v(sp_enc(trailer))), sh.encryption_key), sp_pick(sh.crypt_filters, sp_dget(OLD(sp_enc(trailer)), "StmF"), sp_plain(OLD(sp_enc_v(sp_enc(trailer))), sh.encryption_key))))
  ensures [C17] strings: IMP(err == nil && OLD(sp_enc_r(sp_enc(trailer))) == 4, sh.string_filter == UNDER(sh.string_filter, sp_plain(OLD(sp_enc_v(sp_enc(trailer))), sh.encryption_key), sp_pick(sh.crypt_filters, sp_dget(OLD(sp_enc(trailer)), "StrF"), sp_plain(OLD(sp_enc_v(sp_enc(trailer))), sh.encryption_key))))
  ensures [C17] files: IMP(err == nil && OLD(sp_enc_r(sp_enc(trailer))) == 4, sh.file_filter == sp_pick(sh.crypt_filters, sp_dget(OLD(sp_enc(trailer)), "EFF"), sh.stream_filter))
  loop 1
    invariant 0 <= i
    invariant len(temp_key) == len(sh.encryption_key)
    invariant EQ(sp_rounds(sh.encryption_key, u, i), sp_rounds(sh.encryption_key, sp_md5(CAT(padding_string, sh.id)), 0))
  loop 2
    invariant len(temp_key) == len(sh.encryption_key)
    invariant 0 <= IDX && IDX <= len(sh.encryption_key) && EQ(temp_key[:IDX], sp_xorkey(sh.encryption_key, byte(i), IDX))
  loop 3
    invariant ALL(func(k string) bool { return HAS(sh.crypt_filters, k) == (k == "Identity" || SEEN(k) && sp_cf_known(cf, k)) })
    invariant ALL(func(k string) bool { return IMP(HAS(sh.crypt_filters, k), sh.crypt_filters[k] == ITE(SEEN(k), sp_cf_entry(cf, k, sh.o, sh.p, sh.id, sh.r, sh.encrypt_meta_data, password, sh.length), CryptFilter(noFilter))) })
