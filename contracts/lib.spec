// Contracts of the library functions the code calls: assumed, not proved.
ghost g_buf, g_data, g_off
natural g_off

extern bytes.Buffer.Write(b, p; n, err)
  modifies g_buf(b)
  ensures EQ(g_buf(b), CAT(OLD(g_buf(b)), p))
  ensures n == len(p) && err == nil

extern bytes.Buffer.WriteByte(b, c; err)
  modifies g_buf(b)
  ensures EQ(g_buf(b), append(OLD(g_buf(b)), c))
  ensures err == nil

extern bytes.Buffer.WriteString(b, s; n, err)
  modifies g_buf(b)
  ensures EQ(g_buf(b), CAT(OLD(g_buf(b)), []byte(s)))
  ensures n == len(s) && err == nil

extern bytes.Buffer.Bytes(b; r)
  ensures EQ(r, g_buf(b))

extern bytes.Buffer.String(b; r) nilok
  ensures r == ITE(b == nil, "<nil>", string(g_buf(b)))

extern bytes.Buffer.Len(b; n)
  ensures n == len(g_buf(b))

extern bytes.NewReader(b; r)
  ensures ISNEW(r)
  ensures EQ(g_data(r), b) && g_off(r) == 0 && !g_taken(r)

extern bytes.NewBuffer(b; r)
  ensures ISNEW(r)
  ensures EQ(g_buf(r), b)

extern bytes.Reader.ReadByte(r; b, err)
  modifies g_off(r)
  ensures IMP(OLD(g_off(r)) < len(g_data(r)), err == nil && b == g_data(r)[OLD(g_off(r))] && g_off(r) == OLD(g_off(r)) + 1)
  ensures IMP(OLD(g_off(r)) >= len(g_data(r)), err == io.EOF && b == 0 && g_off(r) == OLD(g_off(r)))

extern encoding/binary.bigEndian.PutUint32(e, b, v)
  requires len(b) >= 4
  mutates b
  ensures EQ(b, CAT(sp_be32(v), OLD(b)[4:]))

extern strconv.ParseUint(s, base, bits; v, err)
  ensures IMP(base == 16 && bits == 8 && len(s) == 2, IFF(err == nil, sp_ishex(s[0]) && sp_ishex(s[1])) && IMP(err == nil, int(v) == 16*sp_hexval(s[0]) + sp_hexval(s[1])))
  ensures IMP(base == 8 && bits == 8 && len(s) == 1 && s[0] >= '0' && s[0] <= '7', err == nil && int(v) == int(s[0]) - 48)
  ensures IMP(base == 8 && bits == 8 && len(s) == 2 && s[0] >= '0' && s[0] <= '7' && s[1] >= '0' && s[1] <= '7', err == nil && int(v) == 8*(int(s[0]) - 48) + int(s[1]) - 48)
  ensures IMP(base == 8 && bits == 8 && len(s) == 3 && s[0] >= '0' && s[0] <= '7' && s[1] >= '0' && s[1] <= '7' && s[2] >= '0' && s[2] <= '7', IFF(err == nil, s[0] <= '3') && IMP(err == nil, int(v) == 64*(int(s[0]) - 48) + 8*(int(s[1]) - 48) + int(s[2]) - 48))

// bufio.Reader over a file or byte slice whose reads do not fail: g_data is the
// whole content, g_off the logical position in it, g_last whether the last byte
// read can be put back.
ghost g_last, g_log, g_tty

extern bufio.Reader.ReadByte(r; b, err)
  modifies g_off(r), g_last(r)
  ensures IMP(OLD(g_off(r)) < len(g_data(r)), err == nil && b == g_data(r)[OLD(g_off(r))] && g_off(r) == OLD(g_off(r)) + 1 && g_last(r))
  ensures IMP(OLD(g_off(r)) >= len(g_data(r)), err == io.EOF && b == 0 && g_off(r) == OLD(g_off(r)) && g_last(r) == OLD(g_last(r)))

extern bufio.Reader.UnreadByte(r; err)
  requires IMP(g_last(r), 0 < g_off(r))
  modifies g_off(r), g_last(r)
  ensures IMP(OLD(g_last(r)), err == nil && g_off(r) == OLD(g_off(r)) - 1 && !g_last(r))
  ensures IMP(!OLD(g_last(r)), err == bufio.ErrInvalidUnreadByte && g_off(r) == OLD(g_off(r)) && !g_last(r))

nonnil *bufio.Reader, io.ReadSeeker, *Parser, Object, Decryptor, CryptFilter, *XrefEntry

extern strings.Builder.WriteByte(b, c; err)
  modifies g_buf(b)
  ensures EQ(g_buf(b), append(OLD(g_buf(b)), c))
  ensures err == nil

extern strings.Builder.WriteString(b, s; n, err)
  modifies g_buf(b)
  ensures EQ(g_buf(b), CAT(OLD(g_buf(b)), []byte(s)))
  ensures n == len(s) && err == nil

extern strings.Builder.String(b; r)
  ensures r == string(g_buf(b))

extern bufio.Reader.Peek(r, n; b, err)
  requires 0 <= n && n <= 16
  modifies g_last(r)
  ensures EQ(b, sp_clip(g_data(r), g_off(r), n))
  ensures !g_last(r)

extern bufio.Reader.Discard(r, n; m, err)
  requires 0 <= n && n <= 16
  modifies g_off(r), g_last(r)
  ensures IMP(OLD(g_off(r)) + n <= len(g_data(r)), m == n && g_off(r) == OLD(g_off(r)) + n)
  ensures OLD(g_off(r)) <= g_off(r)
  ensures IMP(OLD(g_last(r)) || g_last(r), 0 < g_off(r))

extern io.ReadFull(r, b; n, err)
  modifies g_off(sp_reader(r)), g_last(sp_reader(r))
  mutates b
  ensures n == len(sp_clip(g_data(sp_reader(r)), OLD(g_off(sp_reader(r))), len(OLD(b))))
  ensures EQ(b, CAT(sp_clip(g_data(sp_reader(r)), OLD(g_off(sp_reader(r))), len(OLD(b))), OLD(b)[n:]))
  ensures g_off(sp_reader(r)) == OLD(g_off(sp_reader(r))) + n
  ensures IMP(g_last(sp_reader(r)), 0 < g_off(sp_reader(r)))
  ensures IFF(err == nil, n == len(OLD(b)))
