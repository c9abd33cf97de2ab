// The decompressors of the libraries: what they make of data is uninterpreted,
// how the code uses it is proved.
spec sp_zlib_ok(b; r) uninterpreted

spec sp_inflate(b; r) uninterpreted

spec sp_inflate_bad(b; r) uninterpreted

spec sp_lzw0(b; r) uninterpreted

spec sp_lzw0_bad(b; r) uninterpreted

spec sp_lzw1(b; r) uninterpreted

spec sp_lzw1_bad(b; r) uninterpreted

ghost g_fail

extern compress/zlib.NewReader(r; z, err)
  requires g_off(r) == 0
  modifies g_off(r)
  ensures ISNEW(z)
  ensures IFF(err == nil, sp_zlib_ok(g_data(r)))
  ensures IMP(err == nil, EQ(g_data(z), sp_inflate(g_data(r))) && IFF(g_fail(z), sp_inflate_bad(g_data(r))) && g_off(z) == 0)

extern compress/lzw.NewReader(r, order, width; z)
  requires g_off(r) == 0 && int(order) == 1 && width == 8
  modifies g_off(r)
  ensures ISNEW(z)
  ensures EQ(g_data(z), sp_lzw0(g_data(r))) && IFF(g_fail(z), sp_lzw0_bad(g_data(r))) && g_off(z) == 0

extern golang.org/x/image/tiff/lzw.NewReader(r, order, width; z)
  requires g_off(r) == 0 && int(order) == 1 && width == 8
  modifies g_off(r)
  ensures ISNEW(z)
  ensures EQ(g_data(z), sp_lzw1(g_data(r))) && IFF(g_fail(z), sp_lzw1_bad(g_data(r))) && g_off(z) == 0

extern io.Closer.Close(c; err)

extern bytes.Buffer.ReadFrom(b, r; n, err)
  requires g_off(r) == 0
  modifies g_buf(b), g_off(r)
  ensures EQ(g_buf(b), CAT(OLD(g_buf(b)), g_data(r)))
  ensures int(n) == len(g_data(r))
  ensures IFF(err != nil, g_fail(r))

extern bytes.Buffer.ReadByte(b; c, err)
  modifies g_buf(b)
  ensures IMP(len(OLD(g_buf(b))) > 0, err == nil && c == OLD(g_buf(b))[0] && EQ(g_buf(b), OLD(g_buf(b))[1:]))
  ensures IMP(len(OLD(g_buf(b))) == 0, err == io.EOF && c == 0 && EQ(g_buf(b), OLD(g_buf(b))))

extern bytes.Buffer.Truncate(b, n)
  requires 0 <= n && n <= len(g_buf(b))
  modifies g_buf(b)
  ensures EQ(g_buf(b), OLD(g_buf(b))[:n])

func FlateDecode(data, decode_parms; r)
  props C13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 15
  ensures [C13] decoded: EQ(r, sp_flate(data, decode_parms))

func LZWDecode(data, decode_parms; r)
  props C13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 15
  ensures [C13] decoded: EQ(r, sp_lzwdecode(data, decode_parms))

func DecodeStream(filter, data, decode_parms; r)
  props C13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 16
  ensures [C13] decoded: EQ(r, sp_decode(filter, data, decode_parms))

func Parser.ReadStream(parser, decryptor, filter_list, decode_parms_list; r)
  props C08 C13 C17
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 17
  ensures [C08 C13 C17] content: EQ(r, sp_content(decryptor, filter_list, decode_parms_list, g_data(parser.Reader), OLD(g_off(parser.Reader))))
  ensures [C08 C17] position: g_off(parser.Reader) == sp_raw_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  loop 1
    invariant sp_databegin(g_data(parser.Reader), g_off(parser.Reader)) == sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant IFF(sp_hasbody(g_data(parser.Reader), g_off(parser.Reader)), sp_hasbody(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant len(g_buf(stream_data)) == 0
    invariant OLD(g_off(parser.Reader)) <= g_off(parser.Reader) && IMP(OLD(g_off(parser.Reader)) < len(g_data(parser.Reader)), g_off(parser.Reader) <= len(g_data(parser.Reader)))
    invariant IMP(OLD(g_off(parser.Reader)) >= len(g_data(parser.Reader)), g_off(parser.Reader) == OLD(g_off(parser.Reader)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)
  loop 2
    invariant sp_hasbody(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant len(g_buf(end_buff)) == 9 || g_off(parser.Reader) == len(g_data(parser.Reader)) && len(g_buf(end_buff)) < 9
    invariant sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader))) + len(g_buf(stream_data)) + len(g_buf(end_buff)) == g_off(parser.Reader)
    invariant g_off(parser.Reader) <= len(g_data(parser.Reader))
    invariant EQ(g_buf(stream_data), g_data(parser.Reader)[sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader))):sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader))) + len(g_buf(stream_data))])
    invariant EQ(g_buf(end_buff), g_data(parser.Reader)[sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader))) + len(g_buf(stream_data)):g_off(parser.Reader)])
    invariant EQ(CAT(g_buf(stream_data), g_buf(end_buff)), g_data(parser.Reader)[sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader))):g_off(parser.Reader)])
    invariant sp_mark(g_data(parser.Reader), sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader))) + len(g_buf(stream_data))) == sp_mark(g_data(parser.Reader), sp_databegin(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader) + len(g_buf(end_buff))
  loop 3
    invariant 0 <= i
    invariant IMP(i == 0, EQ(stream_data_bytes, sp_decrypt(decryptor, sp_raw(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    invariant rest: EQ(sp_chain(filter_list, decode_parms_list, stream_data_bytes, i), sp_chain(filter_list, decode_parms_list, sp_decrypt(decryptor, sp_raw(g_data(parser.Reader), OLD(g_off(parser.Reader)))), 0))

spec sp_hasbody(d, i; r)
  decreases len(d) - i

spec sp_databegin(d, i; r)
  ensures IMP(0 <= i && i < len(d), i < r)
  ensures r <= len(d)
  decreases len(d) - i

spec sp_mark(d, i; r)
  ensures IMP(0 <= i && i + 9 == len(d) && string(d[i:len(d)]) != "endstream", r == 0 - 1)
  ensures IMP(i + 9 > len(d), r == 0 - 1)
  ensures r == 0 - 1 || i <= r && r + 9 <= len(d)
  decreases len(d) - i

spec sp_raw(d, i; r)

spec sp_chain(filters, parms, b, k; r)
  decreases len(filters) - k
