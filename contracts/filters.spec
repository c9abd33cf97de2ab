func RunLengthDecode(data; r)
  props C11
  ensures [C11] decoded: EQ(r, sp_runlength(data, 0))
  loop 1
    invariant 0 <= i
    invariant rest: EQ(CAT(g_buf(decoded_data), sp_runlength(data, i)), sp_runlength(data, 0))
    decreases len(data) - i
  loop 2
    invariant 0 <= n && n <= times
    invariant EQ(CAT(g_buf(decoded_data), CAT(REP(data[i], times-n), sp_runlength(data, i+1))), sp_runlength(data, 0))

spec sp_runlength(d, i; r)
  decreases len(d) - i

func ASCIIHexDecode(data; r)
  props C09
  ensures [C09] decoded: EQ(r, sp_asciihex(data, 0))
  loop 1
    invariant 0 <= i
    invariant EQ(CAT(decoded_data, sp_asciihex(data, i)), sp_asciihex(data, 0))
  loop 2
    invariant 0 <= i && i < len(data)
    invariant EQ(CAT(decoded_data, sp_asciihex2(data, i+1, b1)), sp_asciihex(data, 0))
    invariant b2 == '0'

spec sp_asciihex(d, i; r)
  decreases len(d) - i

spec sp_asciihex2(d, j, a; r)
  decreases len(d) - j

func ASCII85Decode(data; r)
  props C10
  ensures [C10] decoded: EQ(r, sp_ascii85(data, 0, 0, 0))
  loop 1
    invariant 0 <= n && n < 5
    invariant EQ(g_data(reader), data) && 0 <= g_off(reader) && g_off(reader) <= len(data)
    invariant EQ(CAT(g_buf(decoded_data), sp_ascii85(data, g_off(reader), v, n)), sp_ascii85(data, 0, 0, 0))
    decreases len(data) - g_off(reader)
  loop 2
    invariant n <= m && m <= 5 && n > 1
    invariant EQ(CAT(g_buf(decoded_data), sp_be32(sp_a85pad(v, m))[:n-1]), sp_ascii85(data, 0, 0, 0))

spec sp_ascii85(d, i, v, n; r)
  decreases len(d) - i
