// C12: predictors.
func GetBits(d, p, n; v)
  props C12
  requires 0 <= p && (1 <= n && n <= 16 || n == 32 && p % 8 == 0)
  cases n = 1..16 32
  cases p % 8 = 0..7
  ensures [C12] bits: int(v) == sp_bits(d, p, n)
  ensures int(v) == sp_bitsat(d, p, n)
  reveal sp_bitsat
  loop 1 unroll=4

func SetBits(d, p, n, v)
  props C12
  mutates d
  requires 0 <= p && 1 <= n && n <= 16 && p/8 < len(d)
  cases n = 1..16
  cases p % 8 = 0..7
  ensures [C12] bits: EQ(d, sp_setbitsat(OLD(d), p, n, int(v)))
  reveal sp_setbitsat
  loop 1 unroll=4

spec sp_pngbyte(method, out, c, w, bpp; r) sealed

spec sp_png(d, out, r, w, bpp; b)
  decreases len(d) - r

spec sp_pngrow(d, out, r, c, w, bpp; b)
  decreases len(d) - r - c

spec sp_bitsat(d, p, n; r) sealed

spec sp_setbitsat(d, p, n, v; b) sealed
  ensures len(b) == len(d)

spec sp_tiffrow(d, r, c, i, bits, colors, columns; b)
  ensures len(b) == len(d)
  decreases columns - c, colors - i

spec sp_tiff(d, r, w, bits, colors, columns; b)
  decreases len(d) - r

spec sp_divstep(r, w; b) opaque
  requires 0 <= r && 0 < w
  ensures (r + w) / w == r / w + 1

func ReversePredictor(data, decode_parms; r)
  props C12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  mutates data
  decreases sp_unread(), 14
  reveal sp_pngbyte
  ensures [C12] reversed: EQ(r, sp_predict(OLD(data), decode_parms))
  loop 1
    invariant len(data) == len(OLD(data))
    invariant 0 <= r && 0 <= r * row_width && r * row_width <= len(data) + row_width
    invariant rows: EQ(sp_tiff(data, r * row_width, row_width, bits_per_component, colors, columns), sp_tiff(OLD(data), 0, row_width, bits_per_component, colors, columns))
    decreases len(data) - r * row_width + row_width
  loop 2
    invariant len(data) == len(OLD(data))
    invariant 1 <= c && c <= columns
    invariant row: EQ(sp_tiff(sp_tiffrow(data, r * row_width, c, 0, bits_per_component, colors, columns), r * row_width + row_width, row_width, bits_per_component, colors, columns), sp_tiff(OLD(data), 0, row_width, bits_per_component, colors, columns))
    decreases columns - c
  loop 3
    invariant len(data) == len(OLD(data))
    invariant 0 <= i && i <= colors
    invariant pixel: EQ(sp_tiff(sp_tiffrow(data, r * row_width, c, i, bits_per_component, colors, columns), r * row_width + row_width, row_width, bits_per_component, colors, columns), sp_tiff(OLD(data), 0, row_width, bits_per_component, colors, columns))
    decreases colors - i
  loop 4
    use sp_divstep(r, row_width)
    invariant 0 <= r
    invariant IMP(r < len(data), len(decoded_data) == r / row_width * (row_width - 1))
    invariant rows: EQ(sp_png(data, decoded_data, r, row_width - 1, pixel_width), sp_png(data, []byte{}, 0, row_width - 1, pixel_width))
    decreases len(data) - r
  loop 5
    invariant 1 <= c && c <= row_width
    invariant len(decoded_data) == dr + c - 1
    invariant row: EQ(sp_png(data, sp_pngrow(data, decoded_data, r, c, row_width - 1, pixel_width), r + row_width, row_width - 1, pixel_width), sp_png(data, []byte{}, 0, row_width - 1, pixel_width))
    decreases len(data) - c
