// The text of pages.
spec sp_code(b, i, v; r)
  decreases len(b) - i

func BytesToInt(b; r)
  props C23 C14
  ensures r == int(sp_code(b, 0, 0))
  loop 1
    invariant sp_code(b, IDX, int64(val)) == sp_code(b, 0, 0)

positive Font.Width
nonnil *Font

spec sp_glyphs(m, w, b, i; r)
  decreases len(b) - i

func Font.Decode(font, b; r)
  props C23
  ensures [C23] r == string(sp_glyphs(font.Cmap, font.Width, b, 0))
  loop 1
    invariant 0 <= i && i <= len(b) && IMP(0 < i, font.Width <= len(b))
    invariant EQ(CAT(g_buf(s), sp_glyphs(font.Cmap, font.Width, b, i)), sp_glyphs(font.Cmap, font.Width, b, 0))
    decreases len(b) - i

// Operands: what the objects before a keyword are worth.
spec sp_nops(d, i; r)
  ensures 0 <= r
  decreases len(d) - i

spec sp_oppos(d, i, k; r)
  ensures IMP(0 <= i, 0 <= r)
  decreases len(d) - i

spec sp_cmdops(p, d, i, k; r)
  ensures len(sp_cmd(p, d, i)) == sp_nops(d, i)
  ensures IMP(0 <= k && k < sp_nops(d, i), sp_cmd(p, d, i)[k] == sp_obj(p, noDecryptor, d, sp_oppos(d, i, k)))
  decreases len(d) - i

spec sp_joined(d, i; r)
  decreases len(d) - i

spec sp_strs(a; r)
  decreases len(a)

spec sp_noderef(p, n, g; r)
  reveal sp_deref, sp_value
  hint sp_chase(p, n, map[int]interface{}{})
  ensures r

spec sp_undecrypted(b; r)
  reveal sp_decrypt
  ensures r

spec sp_operand_lit(p, d, i; r)
  hint sp_undecrypted(sp_string(d, sp_skip(d, i)))
  ensures r

spec sp_operand_hex(p, d, i; r)
  hint sp_undecrypted(sp_hex(d, sp_skip(d, i)))
  ensures r

spec sp_operand_str(p, d, i; r)
  hint sp_operand_lit(p, d, i)
  hint sp_operand_hex(p, d, i)
  hint sp_noderef(p, int(sp_number(d, sp_skip(d, i))), int(sp_int(d, sp_number_end(d, sp_skip(d, i)))))
  ensures r

spec sp_operand_name(p, d, i; r)
  reveal sp_decrypt
  hint sp_noderef(p, int(sp_number(d, sp_skip(d, i))), int(sp_int(d, sp_number_end(d, sp_skip(d, i)))))
  ensures r

spec sp_operand_num(p, d, i; r)
  reveal sp_decrypt
  hint sp_noderef(p, int(sp_number(d, sp_skip(d, i))), int(sp_int(d, sp_number_end(d, sp_skip(d, i)))))
  ensures r

spec sp_operand_arr(p, d, i; r)
  reveal sp_decrypt
  hint sp_noderef(p, int(sp_number(d, sp_skip(d, i))), int(sp_int(d, sp_number_end(d, sp_skip(d, i)))))
  ensures r

spec sp_operand(p, d, i; r)
  hint sp_operand_str(p, d, i)
  hint sp_operand_name(p, d, i)
  hint sp_operand_num(p, d, i)
  hint sp_operand_arr(p, d, i)
  ensures r

spec sp_arrstrs(p, d, i; r)
  hint sp_operand(p, d, i)
  ensures r
  decreases len(d) - i

spec sp_operands(p, d, i, k; r)
  hint sp_cmdops(p, d, i, k)
  hint sp_operand(p, d, sp_oppos(d, i, k))
  hint sp_arrstrs(p, d, sp_skip(d, sp_oppos(d, i, k))+1)
  ensures r

// Fonts: the character map and code width their ToUnicode streams give.
spec sp_bfput(m, start, prefix, last, n, j; r)
  decreases n - j

spec sp_cmap(d, i, m; r)
  decreases len(d) - i, 0, 0

spec sp_bfrange(d, i, n, m; r)
  decreases len(d) - i, 1, n

spec sp_bfchar(d, i, n, m; r)
  decreases len(d) - i, 1, n

spec sp_cmapwidth(d, i, w; r)
  decreases len(d) - i, 0, 0

spec sp_bfrange_width(d, i, n, w; r)
  decreases len(d) - i, 1, n

spec sp_bfchar_width(d, i, n, w; r)
  decreases len(d) - i, 1, n

spec sp_fontmap(d; r) sealed

spec sp_fontwidth(d; r) sealed

spec sp_fonts(page; r) sealed

func NewFont(d; font)
  props C23
  reveal sp_fontmap, sp_fontwidth
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures font != nil && ISNEW(font)
  ensures [C23] map: EQ(font.Cmap, sp_fontmap(d))
  ensures [C23] width: font.Width == sp_fontwidth(d)
  loop 1
    invariant 0 <= g_off(parser.Reader)
    invariant EQ(sp_cmap(cmap, g_off(parser.Reader), font.Cmap), sp_fontmap(d))
    invariant sp_cmapwidth(cmap, g_off(parser.Reader), font.Width) == sp_fontwidth(d)
    use sp_operands(parser, cmap, g_off(parser.Reader), sp_nops(cmap, g_off(parser.Reader)) - 1)
    decreases len(cmap) - g_off(parser.Reader)
  loop 2
    invariant 0 <= i && PRE(g_off(parser.Reader)) <= g_off(parser.Reader)
    invariant EQ(sp_bfrange(cmap, g_off(parser.Reader), count - i, font.Cmap), sp_fontmap(d))
    invariant sp_bfrange_width(cmap, g_off(parser.Reader), count - i, font.Width) == sp_fontwidth(d)
  loop 3
    invariant 0 <= j
    invariant EQ(sp_bfput(font.Cmap, start, []byte(prefix), last, int(int64(end) - int64(start)), j), sp_bfput(PRE(font.Cmap), start, []byte(prefix), last, int(int64(end) - int64(start)), 0))
  loop 4
    invariant 0 <= i && PRE(g_off(parser.Reader)) <= g_off(parser.Reader)
    invariant EQ(sp_bfchar(cmap, g_off(parser.Reader), count - i, font.Cmap), sp_fontmap(d))
    invariant sp_bfchar_width(cmap, g_off(parser.Reader), count - i, font.Width) == sp_fontwidth(d)

// The text of a content stream.
spec sp_text(fonts, d, i; r)
  decreases len(d) - i, 0

spec sp_block(fonts, d, i, m, w; r)
  decreases len(d) - i, 1

func Page.extract(page, output, font_map, contents)
  props C23
  requires output != nil && output.Text != nil
  requires sp_nofont(FontDefault)
  requires ALL(func(k string) bool { return IFF(HAS(font_map, k), HAS(sp_fonts(Dictionary(page)), k)) && IMP(HAS(font_map, k), EQ(font_map[k].Cmap, sp_fontmap(sp_dictof(sp_dget(sp_fonts(Dictionary(page)), k)))) && font_map[k].Width == sp_fontwidth(sp_dictof(sp_dget(sp_fonts(Dictionary(page)), k)))) })
  modifies g_buf(output.Text), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C23] text: EQ(g_buf(output.Text), CAT(OLD(g_buf(output.Text)), sp_text(sp_fonts(Dictionary(page)), contents, 0)))
  loop 1
    invariant 0 <= g_off(page_parser.Reader)
    invariant EQ(CAT(g_buf(output.Text), sp_text(sp_fonts(Dictionary(page)), contents, g_off(page_parser.Reader))), CAT(OLD(g_buf(output.Text)), sp_text(sp_fonts(Dictionary(page)), contents, 0)))
    decreases len(contents) - g_off(page_parser.Reader)
  loop 2
    invariant PRE(g_off(page_parser.Reader)) <= g_off(page_parser.Reader)
    invariant current_font != nil
    invariant EQ(CAT(g_buf(output.Text), sp_block(sp_fonts(Dictionary(page)), contents, g_off(page_parser.Reader), current_font.Cmap, current_font.Width)), CAT(OLD(g_buf(output.Text)), sp_text(sp_fonts(Dictionary(page)), contents, 0)))
    use sp_operands(page_parser, contents, g_off(page_parser.Reader), sp_nops(contents, g_off(page_parser.Reader)) - 1)
    use sp_operands(page_parser, contents, g_off(page_parser.Reader), sp_nops(contents, g_off(page_parser.Reader)) - 2)
    decreases len(contents) - g_off(page_parser.Reader)
  loop 3
    invariant EQ(CAT(g_buf(sb), sp_strs(a[IDX:])), sp_strs(a))

spec sp_pagetexts(fonts, a; r)
  decreases len(a)

spec sp_pagetext(page; r) sealed

func Page.Extract(page, output)
  props C23
  requires output != nil && output.Text != nil
  requires sp_nofont(FontDefault)
  modifies g_buf(output.Text), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C23] text: EQ(g_buf(output.Text), CAT(OLD(g_buf(output.Text)), sp_pagetext(Dictionary(page))))
  reveal sp_fonts, sp_pagetext
  loop 1
    invariant ALL(func(k string) bool { return IFF(HAS(font_map, k), SEEN(k)) && IMP(SEEN(k), HAS(sp_fonts(Dictionary(page)), k) && EQ(font_map[k].Cmap, sp_fontmap(sp_dictof(sp_dget(sp_fonts(Dictionary(page)), k)))) && font_map[k].Width == sp_fontwidth(sp_dictof(sp_dget(sp_fonts(Dictionary(page)), k)))) })
  loop 2
    invariant EQ(CAT(g_buf(output.Text), sp_pagetexts(sp_fonts(Dictionary(page)), contents_array[IDX:])), CAT(OLD(g_buf(output.Text)), sp_pagetext(Dictionary(page))))
