// Cross-reference sections: loading, scanning and repair.
func ReadInt64(reader, width; v, ok)
  props C14
  requires reader != nil && 0 <= g_off(sp_reader(reader)) && g_off(sp_reader(reader)) <= len(g_data(sp_reader(reader)))
  modifies g_off(sp_reader(reader)), g_last(sp_reader(reader))
  ensures [C14] found: ok == sp_hasint(g_data(sp_reader(reader)), OLD(g_off(sp_reader(reader))), width)
  ensures [C14] value: v == ITE(ok, sp_intat(g_data(sp_reader(reader)), OLD(g_off(sp_reader(reader))), width), 0)
  ensures [C14] position: IMP(ok, g_off(sp_reader(reader)) == OLD(g_off(sp_reader(reader))) + width)
  ensures g_off(sp_reader(reader)) <= len(g_data(sp_reader(reader))) && OLD(g_off(sp_reader(reader))) <= g_off(sp_reader(reader))
  loop 1
    invariant 0 <= i && i <= len(data)
    invariant sp_code(data, i, v) == sp_code(data, 0, 0)

func ReadInt(reader, width; v, ok)
  props C14
  requires reader != nil && 0 <= g_off(sp_reader(reader)) && g_off(sp_reader(reader)) <= len(g_data(sp_reader(reader)))
  modifies g_off(sp_reader(reader)), g_last(sp_reader(reader))
  ensures [C14] found: ok == sp_hasint(g_data(sp_reader(reader)), OLD(g_off(sp_reader(reader))), width)
  ensures [C14] value: v == ITE(ok, int(sp_intat(g_data(sp_reader(reader)), OLD(g_off(sp_reader(reader))), width)), 0)
  ensures [C14] position: IMP(ok, g_off(sp_reader(reader)) == OLD(g_off(sp_reader(reader))) + width)
  ensures g_off(sp_reader(reader)) <= len(g_data(sp_reader(reader))) && OLD(g_off(sp_reader(reader))) <= g_off(sp_reader(reader))

spec sp_tab(d, i, k, v; r)
  decreases len(d) - i, 0

spec sp_section(d, i, s, n, j, k, v; r)
  decreases len(d) - i, 1

spec sp_tab_end(d, i; r)
  ensures i <= r
  decreases len(d) - i, 0

spec sp_section_end(d, i, n, j; r)
  ensures i <= r
  decreases len(d) - i, 1

spec sp_unseen(offsets; r) uninterpreted
  ensures 0 <= r

spec sp_sawone(offsets, o; r) uninterpreted
  ensures IMP(!HAS(offsets, o), sp_unseen(MPUT(offsets, o, nil)) < sp_unseen(offsets))

// Any object number and any key: what holds for them holds for all.
spec sp_anyobj(; r) uninterpreted

spec sp_anykey(; r) uninterpreted

spec sp_keyof(e; r) uninterpreted

keyed XrefEntry sp_keyof

spec sp_tables(p, d, off, seen; r)
  hint sp_sawone(seen, off)
  decreases sp_unseen(seen), 1

spec sp_tablesat(p, d, i, seen; r)
  decreases sp_unseen(seen), 2

spec sp_loaded(p, d, off, seen, k, v; r)
  hint sp_sawone(seen, off)
  decreases sp_unseen(seen), 1

spec sp_loadedat(p, d, i, seen, k, v; r)
  decreases sp_unseen(seen), 2

spec sp_trailers(p, d, off, seen, m; r)
  hint sp_sawone(seen, off)
  decreases sp_unseen(seen), 1

spec sp_trailersat(p, d, i, seen, m; r)
  decreases sp_unseen(seen), 2

func Parser.loadXrefTable(parser, offsets)
  props C14
  mutates offsets
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY), parser.Xref, parser.trailer
  decreases sp_unseen(offsets), 2
  ensures [C14] entries: IMP(len(sp_tab(g_data(parser.Reader), OLD(g_off(parser.Reader)), sp_anyobj(), []int64{})) > 0, EQ(sp_ent(parser.Xref, sp_anyobj()), sp_tab(g_data(parser.Reader), OLD(g_off(parser.Reader)), sp_anyobj(), []int64{})))
  ensures [C14] trailer: IMP(HAS(sp_trailer(parser, g_data(parser.Reader), OLD(g_off(parser.Reader))), sp_anykey()), HAS(parser.trailer, sp_anykey()) && parser.trailer[sp_anykey()] == sp_trailer(parser, g_data(parser.Reader), OLD(g_off(parser.Reader)))[sp_anykey()])
  ensures [C14] kept: IMP(HAS(OLD(parser.Xref), sp_anyobj()), HAS(parser.Xref, sp_anyobj()))
  ensures [C14] chain: IMP(sp_tablesat(parser, g_data(parser.Reader), OLD(g_off(parser.Reader)), OLD(offsets)), EQ(sp_ent(parser.Xref, sp_anyobj()), sp_loadedat(parser, g_data(parser.Reader), OLD(g_off(parser.Reader)), OLD(offsets), sp_anyobj(), OLD(sp_ent(parser.Xref, sp_anyobj())))))
  ensures [C14] trailers: IMP(sp_tablesat(parser, g_data(parser.Reader), OLD(g_off(parser.Reader)), OLD(offsets)), sp_same(parser.trailer, sp_trailersat(parser, g_data(parser.Reader), OLD(g_off(parser.Reader)), OLD(offsets), OLD(parser.trailer)), sp_anykey()))
  ensures ALL(func(o int64) bool { return IMP(HAS(OLD(offsets), o), HAS(offsets, o)) })
  loop 1
    invariant OLD(g_off(parser.Reader)) <= g_off(parser.Reader)
    invariant sp_tab_end(g_data(parser.Reader), g_off(parser.Reader)) == sp_tab_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant EQ(sp_tab(g_data(parser.Reader), g_off(parser.Reader), sp_anyobj(), sp_ent(xrefs, sp_anyobj())), sp_tab(g_data(parser.Reader), OLD(g_off(parser.Reader)), sp_anyobj(), []int64{}))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)
  loop 2
    invariant 0 <= i && PRE(g_off(parser.Reader)) <= g_off(parser.Reader)
    invariant sp_section_end(g_data(parser.Reader), g_off(parser.Reader), int64(subsection_length), i) == sp_tab_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))
    invariant EQ(sp_section(g_data(parser.Reader), g_off(parser.Reader), int64(subsection_start), int64(subsection_length), i, sp_anyobj(), sp_ent(xrefs, sp_anyobj())), sp_tab(g_data(parser.Reader), OLD(g_off(parser.Reader)), sp_anyobj(), []int64{}))
  loop 3
    invariant HAS(parser.trailer, sp_anykey()) == (HAS(PRE(parser.trailer), sp_anykey()) || SEEN(sp_anykey())) && IMP(HAS(parser.trailer, sp_anykey()), parser.trailer[sp_anykey()] == ITE(SEEN(sp_anykey()), trailer[sp_anykey()], PRE(parser.trailer)[sp_anykey()]))
    invariant IMP(SEEN(sp_anykey()), HAS(trailer, sp_anykey()))
  loop 4
    invariant IMP(SEEN(sp_anyobj()), HAS(xrefs, sp_anyobj()))
    invariant HAS(parser.Xref, sp_anyobj()) == (HAS(PRE(parser.Xref), sp_anyobj()) || SEEN(sp_anyobj()))
    invariant EQ(sp_ent(parser.Xref, sp_anyobj()), ITE(SEEN(sp_anyobj()), sp_ent(xrefs, sp_anyobj()), PRE(sp_ent(parser.Xref, sp_anyobj()))))

spec sp_norefs(a, i; r)
  decreases len(a) - i

spec sp_stmtab(a, i, d, o, w0, w1, w2, k; r)
  decreases ITE(i < len(a), len(a) - i, 0), ITE(o < len(d), len(d) - o, 0), 2

spec sp_stmsec(a, i, d, o, w0, w1, w2, s, n, j, k; r)
  decreases ITE(i < len(a), len(a) - i, 0), ITE(o < len(d), len(d) - o, 0), 1

func Parser.loadXrefStream(parser, n, offsets)
  props C14
  mutates offsets
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY), parser.Xref, parser.trailer
  decreases sp_unseen(offsets), 2
  ensures [C14] trailer: IMP(HAS(OLD(sp_stmdict(parser, n)), sp_anykey()), HAS(parser.trailer, sp_anykey()) && parser.trailer[sp_anykey()] == OLD(sp_stmdict(parser, n))[sp_anykey()])
  ensures [C14] entries: IMP(sp_anyobj() != n && sp_plainstm(OLD(sp_stmdict(parser, n))) && len(sp_stm(OLD(sp_stmdict(parser, n)), OLD(sp_stmdata(parser, n)), sp_anyobj())) > 0, EQ(sp_ent(parser.Xref, sp_anyobj()), sp_stm(OLD(sp_stmdict(parser, n)), OLD(sp_stmdata(parser, n)), sp_anyobj())))
  ensures [C14] kept: IMP(HAS(OLD(parser.Xref), sp_anyobj()), HAS(parser.Xref, sp_anyobj()))
  ensures ALL(func(o int64) bool { return IMP(HAS(OLD(offsets), o), HAS(offsets, o)) })
  loop 1
    invariant HAS(parser.trailer, sp_anykey()) == (HAS(PRE(parser.trailer), sp_anykey()) || SEEN(sp_anykey())) && IMP(HAS(parser.trailer, sp_anykey()), parser.trailer[sp_anykey()] == ITE(SEEN(sp_anykey()), trailer[sp_anykey()], PRE(parser.trailer)[sp_anykey()]))
    invariant IMP(SEEN(sp_anykey()), HAS(trailer, sp_anykey()))
  loop 2
    invariant 0 <= i && 0 <= g_off(data_reader) && g_off(data_reader) <= len(g_data(data_reader))
    invariant IMP(HAS(PRE(parser.Xref), sp_anyobj()), HAS(parser.Xref, sp_anyobj()))
    invariant EQ(trailer, OLD(sp_stmdict(parser, n))) && EQ(g_data(data_reader), OLD(sp_stmdata(parser, n)))
    invariant IMP(sp_plainstm(trailer), sp_norefs(index, i))
    invariant IMP(sp_plainstm(trailer), sp_hasindex(trailer) && EQ(index, sp_stmindex(trailer)))
    invariant IMP(sp_plainstm(trailer), sp_haswidths(trailer))
    invariant IMP(sp_plainstm(trailer), type_width == sp_stmwidth(trailer, 0))
    invariant IMP(sp_plainstm(trailer), offset_width == sp_stmwidth(trailer, 1))
    invariant IMP(sp_plainstm(trailer), generation_width == sp_stmwidth(trailer, 2))
    invariant IMP(sp_plainstm(trailer), EQ(sp_over(sp_stmtab(index, i, g_data(data_reader), g_off(data_reader), type_width, offset_width, generation_width, sp_anyobj()), sp_ent(parser.Xref, sp_anyobj())), sp_over(sp_stm(trailer, g_data(data_reader), sp_anyobj()), PRE(sp_ent(parser.Xref, sp_anyobj())))))
    decreases len(index) - i
  loop 3
    invariant 0 <= j && 0 <= g_off(data_reader) && g_off(data_reader) <= len(g_data(data_reader))
    invariant IMP(HAS(PRE(parser.Xref), sp_anyobj()), HAS(parser.Xref, sp_anyobj()))
    invariant IMP(sp_plainstm(trailer), EQ(sp_over(sp_stmsec(index, i, g_data(data_reader), g_off(data_reader), type_width, offset_width, generation_width, subsection_start, subsection_length, j, sp_anyobj()), sp_ent(parser.Xref, sp_anyobj())), sp_over(sp_stmtab(index, i, g_data(data_reader), PRE(g_off(data_reader)), type_width, offset_width, generation_width, sp_anyobj()), PRE(sp_ent(parser.Xref, sp_anyobj())))))

spec sp_listed(d, off, k; r) sealed

func Parser.loadXref(parser, offset, offsets)
  reveal sp_listed
  props C14 C15
  mutates offsets
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY), parser.Xref, parser.trailer
  decreases sp_unseen(offsets), 1
  use sp_sawone(offsets, offset)
  ensures [C14] once: IMP(HAS(OLD(offsets), offset), EQ(parser.Xref, OLD(parser.Xref)) && EQ(parser.trailer, OLD(parser.trailer)))
  ensures [C14] kept: IMP(HAS(OLD(parser.Xref), sp_anyobj()), HAS(parser.Xref, sp_anyobj()))
  ensures [C14 C15] section: IMP(!HAS(OLD(offsets), offset) && len(sp_listed(g_data(parser.Reader), offset, sp_anyobj())) > 0, EQ(sp_ent(parser.Xref, sp_anyobj()), sp_listed(g_data(parser.Reader), offset, sp_anyobj())))
  ensures [C14] chain: IMP(sp_tables(parser, g_data(parser.Reader), offset, OLD(offsets)), EQ(sp_ent(parser.Xref, sp_anyobj()), sp_loaded(parser, g_data(parser.Reader), offset, OLD(offsets), sp_anyobj(), OLD(sp_ent(parser.Xref, sp_anyobj())))))
  ensures [C14] trailers: IMP(sp_tables(parser, g_data(parser.Reader), offset, OLD(offsets)), sp_same(parser.trailer, sp_trailers(parser, g_data(parser.Reader), offset, OLD(offsets), OLD(parser.trailer)), sp_anykey()))
  ensures ALL(func(o int64) bool { return IMP(HAS(OLD(offsets), o), HAS(offsets, o)) }) && HAS(offsets, offset)

// Scanning. The regular expressions the code names are assumed to find what the
// specification functions say they do.
spec sp_anymark(; r) uninterpreted

spec sp_has(a, o; r)
  decreases len(a)

spec sp_sorted(a; r) uninterpreted
  ensures len(r) == len(a)
  ensures sp_has(r, sp_anymark()) == sp_has(a, sp_anymark())

spec sp_nextmark(d, i; r)
  ensures r == -1 || 0 <= i && i <= r && r + sp_marklen(d, r) <= len(d)
  decreases len(d) - i

spec sp_marks(d, i; r)
  decreases len(d) - i

spec sp_nexthead(d, i; r) uninterpreted
  ensures r == -1 || i <= r && r < len(d)

spec sp_nexthead_end(d, i; r) uninterpreted
  ensures IMP(sp_nexthead(d, i) >= 0, sp_nexthead(d, i) < r && r <= len(d))

extern regexp.Regexp.FindReaderIndex(re, r; loc)
  modifies g_off(sp_reader(r)), g_last(sp_reader(r))
  ensures IFF(loc == nil, len(loc) == 0) && (len(loc) == 0 || len(loc) >= 2)
  ensures IMP(re == regexp.MustCompile("(start)?xref"), IFF(loc == nil, sp_nextmark(g_data(sp_reader(r)), OLD(g_off(sp_reader(r)))) < 0) && IMP(loc != nil, OLD(g_off(sp_reader(r))) + loc[0] == sp_nextmark(g_data(sp_reader(r)), OLD(g_off(sp_reader(r)))) && loc[1] == loc[0] + sp_marklen(g_data(sp_reader(r)), OLD(g_off(sp_reader(r))) + loc[0])))
  ensures IMP(re == regexp.MustCompile("\\d+([\\s\\x00]|(%[^\\r\\n]*))+\\d+([\\s\\x00]|(%[^\\r\\n]*))+obj"), IFF(loc == nil, sp_nexthead(g_data(sp_reader(r)), OLD(g_off(sp_reader(r)))) < 0) && IMP(loc != nil, OLD(g_off(sp_reader(r))) + loc[0] == sp_nexthead(g_data(sp_reader(r)), OLD(g_off(sp_reader(r)))) && OLD(g_off(sp_reader(r))) + loc[1] == sp_nexthead_end(g_data(sp_reader(r)), OLD(g_off(sp_reader(r))))))

func Parser.findXrefOffsets(parser; r)
  props C15
  owns r
  modifies g_off(parser.Reader), g_last(parser.Reader), g_reset(parser.seeker)
  ensures [C15] markers: EQ(r, sp_marks(g_data(parser.Reader), 0))
  loop 1
    invariant 0 <= offset && int(offset) == g_off(parser.Reader) && g_off(parser.Reader) <= len(g_data(parser.Reader))
    invariant EQ(CAT(offsets, sp_marks(g_data(parser.Reader), g_off(parser.Reader))), sp_marks(g_data(parser.Reader), 0))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_heads(d, i, k, v; r)
  decreases len(d) - i

func Parser.findObjects(parser; r)
  props C15 C17
  owns r
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C15] headers: EQ(sp_headent(r, sp_anyobj()), sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{}))
  ensures [C15] kind: IMP(HAS(r, sp_anyobj()), r[sp_anyobj()].Type == 1 && ISNEW(r[sp_anyobj()]))
  ensures [C15 C17] streams: IMP(HAS(r, sp_anyobj()), r[sp_anyobj()].IsXrefStream == sp_headstm(parser, g_data(parser.Reader), int(r[sp_anyobj()].Offset)) && r[sp_anyobj()].IsEncrypted == !r[sp_anyobj()].IsXrefStream)
  loop 1
    invariant 0 <= offset && int(offset) == g_off(parser.Reader) && g_off(parser.Reader) <= len(g_data(parser.Reader))
    invariant EQ(sp_heads(g_data(parser.Reader), g_off(parser.Reader), sp_anyobj(), sp_headent(objects, sp_anyobj())), sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{}))
    invariant IMP(HAS(objects, sp_anyobj()), objects[sp_anyobj()].Type == 1 && ISNEW(objects[sp_anyobj()]))
    invariant IMP(HAS(objects, sp_anyobj()), objects[sp_anyobj()].IsEncrypted == !objects[sp_anyobj()].IsXrefStream)
    invariant IMP(HAS(objects, sp_anyobj()), objects[sp_anyobj()].IsXrefStream == sp_headstm(parser, g_data(parser.Reader), int(objects[sp_anyobj()].Offset)))
    decreases len(g_data(parser.Reader)) - g_off(parser.Reader)

spec sp_startat(b; r) uninterpreted

spec sp_decimal(s; r) uninterpreted

spec sp_decimalof(s; r) uninterpreted

extern regexp.Regexp.FindAllSubmatch(re, b, n; r)
  ensures IFF(r == nil, len(r) == 0)
  ensures IMP(re == regexp.MustCompile("startxref\\s*(\\d+)\\s*%%EOF") && n == -1, IFF(len(r) == 0, len(sp_startat(b)) == 0) && IMP(len(r) > 0, len(r[len(r)-1]) == 2 && EQ(r[len(r)-1][1], sp_startat(b))))

extern strconv.ParseInt(s, base, bits; v, err)
  ensures IMP(base == 10 && bits == 64, IFF(err == nil, sp_decimal([]byte(s))) && IMP(err == nil, v == sp_decimalof([]byte(s))))

spec sp_hasstartxref(d; r) sealed

spec sp_startxref(d; r) sealed

func Parser.getStartXrefOffset(parser; r, ok)
  props C15
  reveal sp_hasstartxref, sp_startxref
  modifies g_off(parser.Reader), g_last(parser.Reader), g_reset(parser.seeker)
  ensures [C15] found: ok == sp_hasstartxref(g_data(parser.Reader))
  ensures [C15] start: IMP(ok, r == sp_startxref(g_data(parser.Reader)))

spec sp_points(d, off, k; r) opaque

spec sp_fixed(d, off, k; r) opaque

func Parser.SetPassword(parser, password; err)
  props C16 C17
  requires parser.security_handler != nil
  modifies parser.security_handler.v, parser.security_handler.length, parser.security_handler.r, parser.security_handler.o, parser.security_handler.u, parser.security_handler.p, parser.security_handler.encrypt_meta_data, parser.security_handler.id, parser.security_handler.stream_filter, parser.security_handler.string_filter, parser.security_handler.file_filter, parser.security_handler.crypt_filters, parser.security_handler.encryption_key
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C16] error: err == OLD(sp_init_err(parser.trailer, []byte(password)))
  ensures [C16] key: IMP(err == nil, EQ(parser.security_handler.encryption_key, OLD(sp_enc_key(parser.trailer, []byte(password), sp_enc_len(sp_enc(parser.trailer))))))

func Parser.Load(parser, password; err)
  props C15 C16 C17
  requires parser.security_handler != nil
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY), parser.Xref, parser.trailer, XrefEntry.Offset, XrefEntry.IsEncrypted
  modifies parser.security_handler.v, parser.security_handler.length, parser.security_handler.r, parser.security_handler.o, parser.security_handler.u, parser.security_handler.p, parser.security_handler.encrypt_meta_data, parser.security_handler.id, parser.security_handler.stream_filter, parser.security_handler.string_filter, parser.security_handler.file_filter, parser.security_handler.crypt_filters, parser.security_handler.encryption_key
  ensures [C15] reachable: IMP(len(sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})) > 0, HAS(parser.Xref, sp_anyobj()) && (sp_points(g_data(parser.Reader), parser.Xref[sp_anyobj()].Offset, sp_anyobj()) || parser.Xref[sp_anyobj()].Offset == sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})[0]))
  ensures [C15] markers: IMP(sp_has(sp_marks(g_data(parser.Reader), 0), sp_anymark()) && len(sp_listed(g_data(parser.Reader), sp_anymark(), sp_anyobj())) > 0, HAS(parser.Xref, sp_anyobj()))
  ensures [C15] newest: IMP(sp_hasstartxref(g_data(parser.Reader)) && len(sp_listed(g_data(parser.Reader), sp_startxref(g_data(parser.Reader)), sp_anyobj())) > 0, HAS(parser.Xref, sp_anyobj()) && parser.Xref[sp_anyobj()].Offset == sp_fixed(g_data(parser.Reader), sp_listed(g_data(parser.Reader), sp_startxref(g_data(parser.Reader)), sp_anyobj())[0], sp_anyobj()) && int64(parser.Xref[sp_anyobj()].Generation) == sp_listed(g_data(parser.Reader), sp_startxref(g_data(parser.Reader)), sp_anyobj())[1] && int64(parser.Xref[sp_anyobj()].Type) == sp_listed(g_data(parser.Reader), sp_startxref(g_data(parser.Reader)), sp_anyobj())[2])
  ensures [C17] encryption: IMP(HAS(parser.Xref, sp_anyobj()) && sp_encryption(parser.trailer, sp_anyobj()), !parser.Xref[sp_anyobj()].IsEncrypted)
  ensures [C17] streams: IMP(HAS(parser.Xref, sp_anyobj()) && len(sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})) > 0 && OLD(sp_headstm(parser, g_data(parser.Reader), int(sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})[0]))) && parser.Xref[sp_anyobj()].Offset == sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})[0], !parser.Xref[sp_anyobj()].IsEncrypted)
  ensures [C17] ordinary: IMP(sp_hasstartxref(g_data(parser.Reader)) && len(sp_listed(g_data(parser.Reader), sp_startxref(g_data(parser.Reader)), sp_anyobj())) > 0 && !sp_encryption(parser.trailer, sp_anyobj()) && !(len(sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})) > 0 && OLD(sp_headstm(parser, g_data(parser.Reader), int(sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})[0]))) && parser.Xref[sp_anyobj()].Offset == sp_heads(g_data(parser.Reader), 0, sp_anyobj(), []int64{})[0]), parser.Xref[sp_anyobj()].IsEncrypted == (sp_listed(g_data(parser.Reader), sp_startxref(g_data(parser.Reader)), sp_anyobj())[3] == 1))
  ensures [C16] error: err == ITE(HAS(parser.trailer, "Encrypt"), UNDER(parser.security_handler.string_filter, OLD(parser.security_handler.string_filter), sp_init_err(parser.trailer, []byte(password))), nil)
  ensures [C16 C17] key: IMP(HAS(parser.trailer, "Encrypt") && err == nil, EQ(parser.security_handler.encryption_key, UNDER(parser.security_handler.string_filter, OLD(parser.security_handler.string_filter), sp_enc_key(parser.trailer, []byte(password), sp_enc_len(sp_enc(parser.trailer))))))
  loop 1
    invariant sp_has(xref_offsets, sp_anymark()) || !sp_has(sp_marks(g_data(parser.Reader), 0), sp_anymark())
  loop 2
    invariant IMP(IDX > 0 && len(sp_listed(g_data(parser.Reader), xref_offsets[IDX-1], sp_anyobj())) > 0, EQ(sp_ent(parser.Xref, sp_anyobj()), sp_listed(g_data(parser.Reader), xref_offsets[IDX-1], sp_anyobj())))
    invariant IMP(sp_has(xref_offsets[:IDX], sp_anymark()) && len(sp_listed(g_data(parser.Reader), sp_anymark(), sp_anyobj())) > 0, HAS(parser.Xref, sp_anyobj()))
  loop 3
    invariant IMP(SEEN(sp_anyobj()), HAS(objects, sp_anyobj()))
    invariant HAS(parser.Xref, sp_anyobj()) == (HAS(PRE(parser.Xref), sp_anyobj()) || SEEN(sp_anyobj()))
    invariant IMP(HAS(parser.Xref, sp_anyobj()), parser.Xref[sp_anyobj()] == ITE(HAS(PRE(parser.Xref), sp_anyobj()), PRE(parser.Xref)[sp_anyobj()], objects[sp_anyobj()]))
    invariant [C15] IMP(HAS(PRE(parser.Xref), sp_anyobj()), parser.Xref[sp_anyobj()].Offset == ITE(SEEN(sp_anyobj()) && !sp_points(g_data(parser.Reader), PRE(parser.Xref[sp_anyobj()].Offset), sp_anyobj()), objects[sp_anyobj()].Offset, PRE(parser.Xref[sp_anyobj()].Offset)))
    invariant [C15] IMP(HAS(objects, sp_anyobj()), objects[sp_anyobj()].Offset == PRE(objects[sp_anyobj()].Offset))
    invariant [C17] IMP(HAS(parser.Xref, sp_anyobj()) && SEEN(sp_anyobj()) && objects[sp_anyobj()].IsXrefStream && parser.Xref[sp_anyobj()].Offset == objects[sp_anyobj()].Offset, !parser.Xref[sp_anyobj()].IsEncrypted)
    invariant [C17] IMP(HAS(objects, sp_anyobj()) && objects[sp_anyobj()].IsXrefStream, !objects[sp_anyobj()].IsEncrypted)
    invariant [C17] IMP(HAS(PRE(parser.Xref), sp_anyobj()) && !(SEEN(sp_anyobj()) && objects[sp_anyobj()].IsXrefStream && parser.Xref[sp_anyobj()].Offset == objects[sp_anyobj()].Offset), parser.Xref[sp_anyobj()].IsEncrypted == PRE(parser.Xref[sp_anyobj()].IsEncrypted))
