func Parser.consumeComment(parser)
  props C05
  modifies g_off(parser.Reader), g_last(parser.Reader)
  ensures [C05] position: g_off(parser.Reader) == sp_comment(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  loop 1
    invariant OLD(g_off(parser.Reader)) <= g_off(parser.Reader)
    invariant sp_comment(g_data(parser.Reader), g_off(parser.Reader)) == sp_comment(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_comment(d, i; r)
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

func Parser.consumeWhitespace(parser)
  props C05
  modifies g_off(parser.Reader), g_last(parser.Reader)
  ensures [C05] position: g_off(parser.Reader) == sp_skip(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  loop 1
    invariant OLD(g_off(parser.Reader)) <= g_off(parser.Reader)
    invariant sp_skip(g_data(parser.Reader), g_off(parser.Reader)) == sp_skip(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_skip(d, i; r)
  ensures IMP(0 <= r && r < len(d), !sp_ws(d[r]) && d[r] != '%')
  ensures sp_skip(d, r) == r
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

spec sp_digits_end(d, i; r)
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

spec sp_digits(d, i, v; r)
  decreases len(d) - i

spec sp_regular_end(d, i; r)
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

func Parser.ReadInt64(parser; v, ok)
  props C05 C14 C15
  modifies g_off(parser.Reader), g_last(parser.Reader)
  ensures [C05 C14 C15] found: ok == sp_isint(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C05 C14 C15] value: v == ITE(ok, sp_int(g_data(parser.Reader), OLD(g_off(parser.Reader))), 0)
  ensures [C05 C14 C15] position: g_off(parser.Reader) == sp_int_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  loop 1
    invariant 0 <= g_off(parser.Reader)
    invariant sp_digits(g_data(parser.Reader), g_off(parser.Reader), value) == sp_int(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant sp_digits_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_int_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

func Parser.ReadInt(parser; v, ok)
  props C05 C14 C15
  modifies g_off(parser.Reader), g_last(parser.Reader)
  ensures [C05 C14 C15] found: ok == sp_isint(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C05 C14 C15] value: v == ITE(ok, int(sp_int(g_data(parser.Reader), OLD(g_off(parser.Reader)))), 0)
  ensures [C05 C14 C15] position: g_off(parser.Reader) == sp_int_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))

func Parser.ReadKeyword(parser; r)
  props C05 C14 C15
  modifies g_off(parser.Reader), g_last(parser.Reader)
  ensures [C05 C14 C15] value: string(r) == string(sp_keyword(g_data(parser.Reader), OLD(g_off(parser.Reader))))
  ensures [C05 C14 C15] position: g_off(parser.Reader) == sp_keyword_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  loop 1
    invariant sp_skip(g_data(parser.Reader), OLD(g_off(parser.Reader))) <= g_off(parser.Reader)
    invariant sp_regular_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_keyword_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant EQ(g_buf(keyword), sp_sub(g_data(parser.Reader), sp_skip(g_data(parser.Reader), OLD(g_off(parser.Reader))), g_off(parser.Reader)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

logfield Output.Errors

func Output.Error(output, message)
  props C07
  modifies g_log(output.Errors)
  ensures [C07] IMP(output.Errors != nil, EQ(g_log(output.Errors), CAT(OLD(g_log(output.Errors)), sp_msg(message))))

func Parser.log_error(parser, message)
  props C07
  modifies g_log(parser.output.Errors)
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_msg(message))))

func IsHex(b; r)
  props C04
  ensures [C04] r == sp_ishex(b)

func Parser.ReadName(parser; r)
  props C04 C07
  modifies g_off(parser.Reader), g_last(parser.Reader), g_log(parser.output.Errors)
  ensures [C04] value: string(r) == string(sp_name(g_data(parser.Reader), OLD(g_off(parser.Reader))))
  ensures [C04] position: g_off(parser.Reader) == sp_name_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_name_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  loop 1
    invariant 0 <= g_off(parser.Reader)
    invariant EQ(CAT(g_buf(name), sp_nm(g_data(parser.Reader), g_off(parser.Reader))), sp_name(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_nm_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_name_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant [C07] IMP(sp_logs(parser), EQ(CAT(g_log(parser.output.Errors), sp_nm_log(g_data(parser.Reader), g_off(parser.Reader))), CAT(OLD(g_log(parser.output.Errors)), sp_name_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_nm(d, i; r)
  decreases len(d) - i

spec sp_nm_end(d, i; r)
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

spec sp_nm_log(d, i; r)
  decreases len(d) - i

func Parser.ReadHexString(parser, decryptor; r)
  props C04 C07 C17
  modifies g_off(parser.Reader), g_last(parser.Reader), g_log(parser.output.Errors)
  reveal sp_decrypt
  ensures [C04 C17] plain: IMP(decryptor == Decryptor(noDecryptor), string(r) == string(sp_hex(g_data(parser.Reader), OLD(g_off(parser.Reader)))))
  ensures [C04 C17] value: string(r) == ITE(sp_begins(g_data(parser.Reader), OLD(g_off(parser.Reader)), '<'), string(sp_decrypt(decryptor, sp_hex(g_data(parser.Reader), OLD(g_off(parser.Reader))))), "")
  ensures [C04 C17] position: g_off(parser.Reader) == sp_hex_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_hex_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  loop 1
    invariant 0 <= g_off(parser.Reader)
    invariant EQ(CAT(g_buf(s), sp_hx(g_data(parser.Reader), g_off(parser.Reader))), sp_hex(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_hx_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_hex_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant [C07] IMP(sp_logs(parser), EQ(CAT(g_log(parser.output.Errors), sp_hx_log(g_data(parser.Reader), g_off(parser.Reader))), CAT(OLD(g_log(parser.output.Errors)), sp_hex_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)
  loop 2
    invariant 0 <= i && i <= 2 && len(code) == 2 && PRE(g_off(parser.Reader)) + i <= g_off(parser.Reader)
    invariant 0 <= g_off(parser.Reader)
    invariant IMP(i < 2, code[1] == '0') && IMP(i < 1, code[0] == '0') && IMP(i > 0, sp_ishex(code[0])) && IMP(i > 1, sp_ishex(code[1]))
    invariant EQ(CAT(g_buf(s), ITE(i == 0, sp_hx(g_data(parser.Reader), g_off(parser.Reader)), ITE(i == 1, sp_hx2(g_data(parser.Reader), g_off(parser.Reader), code[0]), CAT([]byte{byte(16*sp_hexval(code[0])+sp_hexval(code[1]))}, sp_hx(g_data(parser.Reader), g_off(parser.Reader)))))), sp_hex(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_hx_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_hex_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant [C07] IMP(sp_logs(parser), EQ(CAT(g_log(parser.output.Errors), sp_hx_log(g_data(parser.Reader), g_off(parser.Reader))), CAT(OLD(g_log(parser.output.Errors)), sp_hex_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_hx(d, i; r)
  decreases len(d) - i

spec sp_hx2(d, i, a; r)
  decreases len(d) - i

spec sp_hx_end(d, i; r)
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

spec sp_hx_log(d, i; r)
  decreases len(d) - i

func Parser.ReadString(parser, decryptor; r)
  props C03 C07 C17
  modifies g_off(parser.Reader), g_last(parser.Reader), g_log(parser.output.Errors)
  ensures [C03 C17] value: string(r) == ITE(sp_begins(g_data(parser.Reader), OLD(g_off(parser.Reader)), '('), string(sp_decrypt(decryptor, sp_string(g_data(parser.Reader), OLD(g_off(parser.Reader))))), "")
  ensures [C03 C17] position: g_off(parser.Reader) == sp_string_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_string_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  loop 1
    invariant 0 <= g_off(parser.Reader) && 1 <= open_parens && open_parens <= g_off(parser.Reader) && IMP(1 < open_parens, g_off(parser.Reader) <= len(g_data(parser.Reader)))
    invariant EQ(CAT(g_buf(s), sp_str(g_data(parser.Reader), g_off(parser.Reader), open_parens)), sp_string(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_str_end(g_data(parser.Reader), g_off(parser.Reader), open_parens) == sp_string_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant [C07] IMP(sp_logs(parser), EQ(CAT(g_log(parser.output.Errors), sp_str_log(g_data(parser.Reader), g_off(parser.Reader), open_parens)), CAT(OLD(g_log(parser.output.Errors)), sp_string_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_str(d, i, n; r)
  decreases len(d) - i

spec sp_str_end(d, i, n; r)
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

spec sp_str_log(d, i, n; r)
  decreases len(d) - i

func Parser.ReadNumber(parser; r)
  props C05
  modifies g_off(parser.Reader), g_last(parser.Reader)
  ensures [C05] value: float64(r) == sp_number(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C05] position: g_off(parser.Reader) == sp_number_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  loop 1
    invariant 0 <= g_off(parser.Reader)
    invariant number: ITE(isReal, sp_frac(g_data(parser.Reader), g_off(parser.Reader), float64(number), 10), sp_dec(g_data(parser.Reader), g_off(parser.Reader), float64(number))) == ITE(isNegative, sp_dec(g_data(parser.Reader), sp_skip(g_data(parser.Reader), OLD(g_off(parser.Reader)))+1, 0), sp_number(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant ITE(isReal, sp_digits_end(g_data(parser.Reader), g_off(parser.Reader)), sp_dec_end(g_data(parser.Reader), g_off(parser.Reader))) == sp_number_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)
  loop 2
    invariant 0 <= g_off(parser.Reader)
    invariant sp_frac(g_data(parser.Reader), g_off(parser.Reader), float64(number), scale) == ITE(isNegative, sp_dec(g_data(parser.Reader), sp_skip(g_data(parser.Reader), OLD(g_off(parser.Reader)))+1, 0), sp_number(g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_digits_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_number_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_frac(d, i, v, scale; r)
  decreases len(d) - i

spec sp_dec(d, i, v; r)
  decreases len(d) - i

spec sp_dec_end(d, i; r)
  ensures i <= r
  ensures IMP(i < len(d), r <= len(d))
  decreases len(d) - i

immutable Reference

func Parser.ReadObject(parser, decryptor; r, err)
  props C06 C07 C17
  modifies g_off(parser.Reader), g_last(parser.Reader), g_log(parser.output.Errors), g_reset(parser.seeker)
  ensures [C06 C17] value: r == sp_obj(parser, decryptor, g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C06 C17] error: err == sp_obj_err(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C06 C17] position: g_off(parser.Reader) == sp_obj_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_obj_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  decreases len(g_data(parser.Reader)) - g_off(parser.Reader), 1

func Parser.ReadArray(parser, decryptor; r)
  props C06 C07 C17
  modifies g_off(parser.Reader), g_last(parser.Reader), g_log(parser.output.Errors), g_reset(parser.seeker)
  ensures [C06 C17] value: EQ(r, sp_array(parser, decryptor, g_data(parser.Reader), OLD(g_off(parser.Reader))))
  ensures [C06 C17] position: g_off(parser.Reader) == sp_array_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_array_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  decreases len(g_data(parser.Reader)) - g_off(parser.Reader), 0
  loop 1
    invariant OLD(g_off(parser.Reader)) < g_off(parser.Reader)
    invariant EQ(append(array, sp_arr(parser, decryptor, g_data(parser.Reader), g_off(parser.Reader))...), sp_array(parser, decryptor, g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_arr_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_array_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant [C07] IMP(sp_logs(parser), EQ(CAT(g_log(parser.output.Errors), sp_arr_log(g_data(parser.Reader), g_off(parser.Reader))), CAT(OLD(g_log(parser.output.Errors)), sp_array_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

func Parser.ReadDictionary(parser, decryptor; r)
  props C06 C07 C17
  modifies g_off(parser.Reader), g_last(parser.Reader), g_log(parser.output.Errors), g_reset(parser.seeker)
  ensures [C06 C17] value: EQ(r, sp_dictionary(parser, decryptor, g_data(parser.Reader), OLD(g_off(parser.Reader))))
  ensures [C06 C17] position: g_off(parser.Reader) == sp_dictionary_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_dictionary_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  decreases len(g_data(parser.Reader)) - g_off(parser.Reader), 0
  loop 1
    invariant OLD(g_off(parser.Reader)) < g_off(parser.Reader)
    invariant EQ(sp_dict(parser, decryptor, g_data(parser.Reader), g_off(parser.Reader), dictionary), sp_dictionary(parser, decryptor, g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_dict_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_dictionary_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant [C07] IMP(sp_logs(parser), EQ(CAT(g_log(parser.output.Errors), sp_dict_log(g_data(parser.Reader), g_off(parser.Reader))), CAT(OLD(g_log(parser.output.Errors)), sp_dictionary_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

func Parser.ReadCommand(parser; k, ops, err)
  props C06 C07 C23
  modifies g_off(parser.Reader), g_last(parser.Reader), g_log(parser.output.Errors), g_reset(parser.seeker)
  ensures [C06 C23] operands: EQ(ops, sp_cmd(parser, g_data(parser.Reader), OLD(g_off(parser.Reader))))
  ensures [C06 C23] keyword: string(k) == sp_cmd_word(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C06 C23] error: err == sp_cmd_err(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C06 C23] position: g_off(parser.Reader) == sp_cmd_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C07] reported: IMP(sp_logs(parser), EQ(g_log(parser.output.Errors), CAT(OLD(g_log(parser.output.Errors)), sp_cmd_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  loop 1
    invariant 0 <= g_off(parser.Reader)
    invariant EQ(append(operands, sp_cmd(parser, g_data(parser.Reader), g_off(parser.Reader))...), sp_cmd(parser, g_data(parser.Reader), OLD(g_off(parser.Reader))))
    invariant sp_cmd_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_cmd_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant sp_cmd_word(g_data(parser.Reader), g_off(parser.Reader)) == sp_cmd_word(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant sp_cmd_err(g_data(parser.Reader), g_off(parser.Reader)) == sp_cmd_err(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant [C07] IMP(sp_logs(parser), EQ(CAT(g_log(parser.output.Errors), sp_cmd_log(g_data(parser.Reader), g_off(parser.Reader))), CAT(OLD(g_log(parser.output.Errors)), sp_cmd_log(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_obj_end(d, i; r)
  ensures i <= r
  ensures IMP(0 <= i && sp_skip(d, i) < len(d), i < r && r <= len(d))
  decreases len(d) - i, 0

spec sp_arr_end(d, i; r)
  ensures i <= r
  ensures IMP(0 <= i && i < len(d), r <= len(d))
  decreases len(d) - i, 1

spec sp_dict_end(d, i; r)
  ensures i <= r
  ensures IMP(0 <= i && i < len(d), r <= len(d))
  decreases len(d) - i, 1

spec sp_obj(p, x, d, i; r)
  ensures IMP(0 <= i && sp_obj_err(d, i) == nil, IFF(sp_iskeyword(d, i), sp_keywordobj(r)))
  ensures IMP(0 <= i && sp_iskeyword(d, i), r == Keyword(sp_keyword(d, i)))
  ensures IMP(0 <= i && sp_obj_err(d, i) == nil, IFF(sp_begins(d, i, '/'), sp_nameobj(r)))
  ensures IMP(0 <= i && sp_begins(d, i, '/'), r == Name(sp_name(d, sp_skip(d, i))))
  ensures IMP(sp_obj_err(d, i) != nil, r == KEYWORD_NULL)
  decreases len(d) - i, 0

spec sp_obj_log(d, i; r)
  decreases len(d) - i, 0

spec sp_arr(p, x, d, i; r)
  decreases len(d) - i, 1

spec sp_dict(p, x, d, i, m; r)
  decreases len(d) - i, 1

spec sp_arr_log(d, i; r)
  decreases len(d) - i, 1

spec sp_dict_log(d, i; r)
  decreases len(d) - i, 1

spec sp_cmd(p, d, i; r)
  decreases len(d) - i, 1

spec sp_cmd_err(d, i; r)
  decreases len(d) - i, 1

spec sp_cmd_word(d, i; r)
  decreases len(d) - i, 1

spec sp_cmd_end(d, i; r)
  ensures i <= r
  ensures IMP(0 <= i && sp_cmd_err(d, i) != ReadError, i < r && r <= len(d))
  decreases len(d) - i, 1

spec sp_cmd_log(d, i; r)
  decreases len(d) - i, 1
