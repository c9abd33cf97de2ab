package pdf

// sp_p2 is two to the n.
func sp_p2(n int) int {
	if n <= 0 {
		return 1
	}
	return 1 << uint(n)
}

func sp_byte(d []byte, i int) int {
	if i >= 0 && i < len(d) {
		return int(d[i])
	}
	return 0
}

// sp_win is the number the four bytes of d at i denote, zeros beyond the end.
func sp_win(d []byte, i int) int {
	return 16777216*sp_byte(d, i) + 65536*sp_byte(d, i+1) + 256*sp_byte(d, i+2) + sp_byte(d, i+3)
}

// sp_bits is the number the n bits of d at bit position p denote.
func sp_bits(d []byte, p, n int) int {
	return sp_win(d, p/8) / sp_p2(32-n-p%8) % sp_p2(n)
}

// sp_setwin is the window with n bits at distance s from its end replaced by v.
func sp_setwin(w, s, n, v int) int {
	return w - w/sp_p2(s)%sp_p2(n)*sp_p2(s) + v%sp_p2(n)*sp_p2(s)
}

// sp_setbits is d with the n bits at position p replaced by the last n bits of v.
func sp_setbits(d []byte, p, n, v int) []byte {
	return sp_putwin(d, p/8, sp_setwin(sp_win(d, p/8), 32-n-p%8, n, v))
}

// sp_putwin is d with the four bytes at i those of w, as far as d goes.
func sp_putwin(d []byte, i, w int) []byte {
	return sp_put(sp_put(sp_put(sp_put(d, i, w/16777216), i+1, w/65536), i+2, w/256), i+3, w)
}

func sp_put(d []byte, i, b int) []byte {
	if i < 0 || i >= len(d) {
		return d
	}
	return UPD(d, i, byte(b))
}

// sp_predict reverses the predictor the parameters name.
func sp_predict(b []byte, parms Dictionary) []byte {
	return sp_unpredict(b, sp_intparm(parms, "Predictor", 1), sp_intparm(parms, "BitsPerComponent", 8), sp_intparm(parms, "Colors", 1), sp_intparm(parms, "Columns", 1))
}

// sp_width is the number of bytes n bits take.
func sp_width(n int) int { return (n + 7) / 8 }

func sp_unpredict(b []byte, predictor, bits, colors, columns int) []byte {
	if bits <= 0 || bits > 16 || colors <= 0 || colors > 1048576 || columns <= 0 || columns > 2147483647 {
		return b
	}
	if predictor == 2 {
		return sp_tiff(b, 0, sp_width(bits*colors*columns), bits, colors, columns)
	}
	if predictor >= 10 && predictor <= 15 {
		return sp_png(b, []byte{}, 0, sp_width(bits*colors*columns), sp_width(bits*colors))
	}
	return b
}

// sp_png reconstructs the rows of d from the one at r on; w is the width of a
// row in bytes, bpp of a pixel.
func sp_png(d, out []byte, r, w, bpp int) []byte {
	if r < 0 || w <= 0 || r >= len(d) {
		return out
	}
	return sp_png(d, sp_pngrow(d, out, r, 1, w, bpp), r+w+1, w, bpp)
}

// sp_pngrow reconstructs the row at r from its c-th byte on.
func sp_pngrow(d, out []byte, r, c, w, bpp int) []byte {
	if c < 1 || c > w || r+c >= len(d) {
		return out
	}
	return sp_pngrow(d, append(out, byte(int(d[r+c])+sp_pngbyte(int(d[r]), out, c, w, bpp))), r, c+1, w, bpp)
}

// sp_pngbyte is the prediction of the c-th byte of a row after the bytes of out.
func sp_pngbyte(method int, out []byte, c, w, bpp int) int {
	return sp_pngpred(method, sp_left(out, c, bpp), sp_up(out, w), sp_upleft(out, c, w, bpp))
}

// The byte one pixel to the left, above, and to the left of the one above.
func sp_left(out []byte, c, bpp int) int {
	if c > bpp {
		return sp_byte(out, len(out)-bpp)
	}
	return 0
}

func sp_up(out []byte, w int) int { return sp_byte(out, len(out)-w) }

func sp_upleft(out []byte, c, w, bpp int) int {
	if c > bpp {
		return sp_byte(out, len(out)-w-bpp)
	}
	return 0
}

func sp_abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// sp_pngpred is the prediction of a method.
func sp_pngpred(method, left, up, upleft int) int {
	if method == 1 {
		return left
	}
	if method == 2 {
		return up
	}
	if method == 3 {
		return (left + up) / 2
	}
	if method == 4 {
		return sp_paeth(left, up, upleft)
	}
	return 0
}

func sp_paeth(a, b, c int) int {
	if sp_abs(b-c) <= sp_abs(a-c) && sp_abs(b-c) <= sp_abs(a+b-c-c) {
		return a
	}
	if sp_abs(a-c) <= sp_abs(a+b-c-c) {
		return b
	}
	return c
}

// sp_tiff adds the previous pixel to each pixel of the rows of d from the one at byte r on.
func sp_tiff(d []byte, r, w, bits, colors, columns int) []byte {
	if r < 0 || w <= 0 || r >= len(d) {
		return d
	}
	return sp_tiff(sp_tiffrow(d, r, 1, 0, bits, colors, columns), r+w, w, bits, colors, columns)
}

// sp_tiffrow adds the previous pixel to each pixel of the row from component i of pixel c on.
func sp_tiffrow(d []byte, r, c, i, bits, colors, columns int) []byte {
	if c < 1 || i < 0 || c >= columns || sp_tiffpos(r, c, i, bits, colors) >= 8*len(d) {
		return d
	}
	if i >= colors {
		return sp_tiffrow(d, r, c+1, 0, bits, colors, columns)
	}
	return sp_tiffrow(sp_tiffadd(d, sp_tiffpos(r, c, i, bits, colors), bits, colors), r, c, i+1, bits, colors, columns)
}

func sp_tiffpos(r, c, i, bits, colors int) int { return 8*r + (c*colors+i)*bits }

func sp_tiffadd(d []byte, p, bits, colors int) []byte {
	return sp_setbitsat(d, p, bits, sp_bitsat(d, p, bits)+sp_bitsat(d, p-colors*bits, bits))
}

// sp_divstep: a row further is one more row.
func sp_divstep(r, w int) bool { return true }

func sp_bitsat(d []byte, p, n int) int { return sp_bits(d, p, n) }

func sp_setbitsat(d []byte, p, n, v int) []byte { return sp_setbits(d, p, n, v) }
