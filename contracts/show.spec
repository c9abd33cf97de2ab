// How objects are written. The contract of Object.String is proved for the method of
// every kind of object.
spec sp_other(o; r) uninterpreted

spec sp_show(o; r)
  decreases sp_depth(o), 1, 0

spec sp_show_pairs(d, i; r)
  decreases sp_depth(Object(d)), 0, len(sp_dictkeys(d)) - i
  hint sp_depths(d, sp_dictkeys(d)[i])

spec sp_show_elems(a, i; r)
  decreases sp_depth(Object(a)), 0, len(a) - i
  hint sp_deptha(a, i)

extern Object.String(o; r)
  decreases sp_depth(o), 1
  ensures r == string(sp_show(o))

func String.String(s; r)
  props C26
  ensures [C26] text: r == string(sp_show(Object(s)))

func Name.String(name; r)
  props C26
  ensures [C26] text: r == string(sp_show(Object(name)))

func Number.String(number; r)
  props C26
  ensures [C26] text: r == string(sp_show(Object(number)))

func Keyword.String(keyword; r)
  props C26
  ensures [C26] text: r == string(sp_show(Object(keyword)))

func Reference.String(reference; r)
  props C26
  ensures [C26] text: r == string(sp_show(Object(reference)))

func Dictionary.String(d; r)
  props C26
  decreases sp_depth(Object(d)), 0
  ensures [C26] text: r == string(sp_show(Object(d)))
  loop 1 keys=sp_dictkeys
    invariant EQ(CAT(g_buf(s), CAT(sp_show_pairs(d, IDX), []byte(">>"))), sp_show(Object(d)))
    use sp_depths(d, sp_dictkeys(d)[IDX])

func Array.String(a; r)
  props C26
  decreases sp_depth(Object(a)), 0
  ensures [C26] text: r == string(sp_show(Object(a)))
  loop 1
    invariant EQ(CAT(g_buf(s), CAT(sp_show_elems(a, IDX), []byte("]"))), sp_show(Object(a)))
    use sp_deptha(a, IDX)

func IndirectObject.String(object; r)
  props C26
  decreases sp_depth(object.Value), 2
  ensures [C26] text: r == string(sp_objtext(object.Number, object.Generation, object.Value, object.Stream == nil, object.Stream))

spec sp_xrefkeys(t; r) uninterpreted

spec sp_doc_raw(p, i; r)
  decreases len(sp_xrefkeys(p.Xref)) - i

spec sp_doc_commands(p, i; r)
  decreases len(sp_xrefkeys(p.Xref)) - i

spec sp_doc_urls(p, i; r)
  decreases len(sp_xrefkeys(p.Xref)) - i

spec sp_doc_files(p, i; r)
  decreases len(sp_xrefkeys(p.Xref)) - i

spec sp_doc_scripts(p, i; r)
  decreases len(sp_xrefkeys(p.Xref)) - i

spec sp_doc_text(p, i; r)
  decreases len(sp_xrefkeys(p.Xref)) - i

spec sp_doc_dir(p, i, dir; r)
  decreases len(sp_xrefkeys(p.Xref)) - i

func Parse(file_path, password, output_dir; failed)
  props C16 C21 C22 C23 C24 C26
  requires sp_nofont(FontDefault)
  modifies g_open(EVERY), g_buf(EVERY), g_handles(sp_process()), g_dir(sp_place(output_dir)), g_last(EVERY), g_log(EVERY), g_reset(EVERY), g_tty(EVERY), XrefEntry.Offset, XrefEntry.IsEncrypted
  ensures [C24] noinput: IMP(sp_openerr(file_path) != nil, failed == sp_openerr(file_path))
  ensures [C24] noreport: IMP(sp_openerr(file_path) == nil && !sp_creatable(output_dir), failed != nil)
  ensures [C24] closed: g_handles(sp_process()) == OLD(g_handles(sp_process()))
  finally [C16] rejected: IMP(HAS(parser.trailer, "Encrypt") && UNDER(parser.security_handler.string_filter, CryptFilter(noFilter), sp_init_err(parser.trailer, []byte(password))) != nil, failed != nil)
  finally [C16] error: IMP(failed != nil, failed == UNDER(parser.security_handler.string_filter, CryptFilter(noFilter), sp_init_err(parser.trailer, []byte(password))))
  finally [C22 C26] succeeded: IMP(failed == nil, EQ(g_buf(output.Raw), sp_doc_raw(parser, 0)) && EQ(g_buf(output.Commands), sp_doc_commands(parser, 0)) && EQ(g_buf(output.URLs), sp_doc_urls(parser, 0)) && EQ(g_buf(output.Files), sp_doc_files(parser, 0)) && EQ(g_buf(output.Javascript), sp_doc_scripts(parser, 0)))
  finally [C23] text: IMP(failed == nil, EQ(g_buf(output.Text), sp_doc_text(parser, 0)))
  finally [C16] nothing: IMP(failed != nil && parser != nil, len(g_buf(output.Raw)) == 0 && len(g_buf(output.Text)) == 0 && len(g_buf(output.Files)) == 0 && len(g_buf(output.URLs)) == 0 && len(g_buf(output.Javascript)) == 0 && len(g_buf(output.Commands)) == 0)
  loop 1 keys=sp_xrefkeys
    invariant [C24] sp_complete(output)
    invariant [C24] EQ(parser.reading, map[int]bool{})
    invariant [C16] IMP(HAS(parser.trailer, "Encrypt"), UNDER(parser.security_handler.string_filter, CryptFilter(noFilter), sp_init_err(parser.trailer, []byte(password))) == nil)
    invariant [C26] EQ(CAT(g_buf(output.Raw), sp_doc_raw(parser, IDX)), sp_doc_raw(parser, 0))
    invariant [C22] EQ(CAT(g_buf(output.Commands), sp_doc_commands(parser, IDX)), sp_doc_commands(parser, 0))
    invariant [C22] EQ(CAT(g_buf(output.URLs), sp_doc_urls(parser, IDX)), sp_doc_urls(parser, 0))
    invariant [C22] EQ(CAT(g_buf(output.Files), sp_doc_files(parser, IDX)), sp_doc_files(parser, 0))
    invariant [C22] EQ(CAT(g_buf(output.Javascript), sp_doc_scripts(parser, IDX)), sp_doc_scripts(parser, 0))
    invariant [C23] EQ(CAT(g_buf(output.Text), sp_doc_text(parser, IDX)), sp_doc_text(parser, 0))
    invariant [C21 C22] EQ(sp_doc_dir(parser, IDX, g_dir(sp_place(output.Directory))), sp_doc_dir(parser, 0, PRE(g_dir(sp_place(output.Directory)))))
