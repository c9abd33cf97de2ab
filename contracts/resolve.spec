// The cross-reference entries whose object is not being read, or was not visited yet:
// how many there are bounds how deep resolving goes. The two lemmas are facts about
// finite sets that are assumed.
spec sp_unread(; r) uninterpreted global
  reads Parser.reading, Parser.Xref
  ensures 0 <= r

spec sp_marked(p, n; r) uninterpreted global
  reads Parser.reading, Parser.Xref
  ensures IMP(HAS(p.Xref, n) && !HAS(p.reading, n), UNDER(p.reading, MPUT(p.reading, n, true), sp_unread()) < sp_unread())
  ensures IMP(!HAS(p.Xref, n), UNDER(p.reading, MPUT(p.reading, n, true), sp_unread()) == sp_unread())

spec sp_todo(p, seen; r) uninterpreted
  reads Parser.Xref
  ensures 0 <= r

spec sp_visited(p, seen, n; r) uninterpreted
  reads Parser.Xref
  ensures IMP(HAS(p.Xref, n) && !HAS(seen, n), sp_todo(p, MPUT(seen, n, nil)) < sp_todo(p, seen))

// Positions: the buffered reader of a parser reads from its seeker.
ghost g_reset

holds Parser sp_parser_ok
nilfield IndirectObject.Stream
onlytrue map[int]bool

spec sp_readeron(s; r) uninterpreted companion

spec sp_ahead(r; n) uninterpreted
  reads g_off, g_last
  ensures 0 <= n && g_off(r) + n <= 1099511627776

ghost g_taken

extern bufio.NewReader(rd; r)
  requires !g_taken(rd)
  modifies g_taken(rd)
  ensures g_taken(rd)
  ensures r != nil && r == sp_readeron(rd)
  ensures EQ(g_data(r), g_data(rd)) && g_off(r) == g_off(rd) && !g_last(r)

extern bufio.Reader.Reset(r, s)
  requires r == sp_readeron(s)
  modifies g_off(r), g_last(r), g_reset(s)
  ensures g_reset(s) && !g_last(r)

extern bufio.Reader.Buffered(r; n)
  ensures n == sp_ahead(r)

extern io.Seeker.Seek(s, off, whence; n, err)
  modifies g_off(sp_readeron(s)), g_last(sp_readeron(s)), g_reset(s)
  ensures IMP(off == 0 && whence == 1, g_off(sp_readeron(s)) == OLD(g_off(sp_readeron(s))) && g_last(sp_readeron(s)) == OLD(g_last(sp_readeron(s))) && int(n) == g_off(sp_readeron(s)) + sp_ahead(sp_readeron(s)) && err == nil)
  ensures IMP(whence == 0 && off >= 0 && OLD(g_reset(s)), g_off(sp_readeron(s)) == int(off) && !g_last(sp_readeron(s)) && n == off && err == nil)
  ensures IMP(whence == 2 && off == 0 && OLD(g_reset(s)), g_off(sp_readeron(s)) == len(g_data(sp_readeron(s))) && !g_last(sp_readeron(s)) && int(n) == len(g_data(sp_readeron(s))) && err == nil)

func Parser.Seek(parser, offset, whence; n, err)
  props C18
  modifies g_off(parser.Reader), g_last(parser.Reader), g_reset(parser.seeker)
  ensures [C18] position: IMP(whence == 0, g_off(parser.Reader) == sp_seekpos(g_data(parser.Reader), offset))
  ensures [C18] end: IMP(whence == 2 && offset == 0, g_off(parser.Reader) == len(g_data(parser.Reader)))
  ensures [C18] result: IMP(whence == 0 || whence == 2 && offset == 0, int(n) == g_off(parser.Reader) && err == nil)

func Parser.CurrentOffset(parser; n)
  props C18
  modifies g_off(parser.Reader), g_last(parser.Reader), g_reset(parser.seeker)
  ensures [C18] position: int(n) == g_off(parser.Reader)
  ensures [C18] unmoved: g_off(parser.Reader) == OLD(g_off(parser.Reader)) && g_last(parser.Reader) == OLD(g_last(parser.Reader))

func Parser.ReadObjectHeader(parser; n, g, ok)
  props C14 C15 C18
  modifies g_off(parser.Reader), g_last(parser.Reader)
  ensures [C14 C15] found: ok == sp_isheader(g_data(parser.Reader), OLD(g_off(parser.Reader)))
  ensures [C14 C15] number: n == ITE(sp_isint(g_data(parser.Reader), OLD(g_off(parser.Reader))), int(sp_int(g_data(parser.Reader), OLD(g_off(parser.Reader)))), 0)
  ensures [C14 C15] generation: IMP(ok, g == int(sp_int(g_data(parser.Reader), sp_int_end(g_data(parser.Reader), OLD(g_off(parser.Reader))))))
  ensures [C14 C15 C18] position: g_off(parser.Reader) == sp_header_end(g_data(parser.Reader), OLD(g_off(parser.Reader)))

spec sp_header_end(d, i; r) opaque

spec sp_isheader(d, i; r) opaque

spec sp_value(p, n; r) sealed

spec sp_value_own(p, n; r)
  reveal sp_value
  ensures r

spec sp_deref(r; o) sealed

spec sp_hasstream(r; o) sealed

spec sp_stream(r; o) sealed

spec sp_data(p, n; r) sealed

spec sp_chase(p, n, seen; r)
  hint sp_visited(p, seen, n)
  reveal sp_value
  decreases sp_todo(p, seen)

spec sp_circular(p, n, seen; r)
  hint sp_visited(p, seen, n)
  reveal sp_value
  decreases sp_todo(p, seen)

spec sp_target(p, n, seen; r)
  hint sp_visited(p, seen, n)
  reveal sp_value
  decreases sp_todo(p, seen)

func Parser.readIndirectObject(parser, number; r)
  props C08 C13 C17 C18 C26
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases ITE(HAS(parser.Xref, number), sp_unread(), sp_unread()), ITE(HAS(parser.Xref, number), 18, 1)
  reveal sp_value, sp_data
  ensures r != nil && ISNEW(r)
  ensures [C18 C26] number: r.Number == number
  ensures [C18 C26] generation: r.Generation == sp_gen(parser, number)
  ensures [C18 C17 C26] value: r.Value == sp_value(parser, number)
  ensures [C18 C26] nodata: IFF(r.Stream == nil, !sp_isstream(parser, number))
  ensures [C18 C17 C13 C26] data: EQ(r.Stream, sp_data(parser, number))

func Parser.GetObject(parser, number; r)
  props C18 C26
  modifies g_off(parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 8
  use sp_marked(parser, number)
  ensures r != nil && ISNEW(r)
  ensures [C18 C26] number: r.Number == number
  ensures [C18 C26] generation: r.Generation == ITE(HAS(parser.reading, number), 0, sp_gen(parser, number))
  ensures [C18 C26] value: r.Value == ITE(HAS(parser.reading, number), Object(KEYWORD_NULL), sp_value(parser, number))
  ensures [C18 C26] nodata: IFF(r.Stream == nil, HAS(parser.reading, number) || !sp_isstream(parser, number))
  ensures [C18 C26] data: EQ(r.Stream, ITE(HAS(parser.reading, number), []byte{}, sp_read(parser, number)))

func Reference.resolve(reference, resolved_references; r)
  props C18
  mutates resolved_references
  modifies g_off(reference.parser.Reader), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 9, sp_todo(reference.parser, resolved_references)
  use sp_visited(reference.parser, resolved_references, reference.Number)
  use sp_value_own(reference.parser, reference.Number)
  ensures r != nil && ISNEW(r)
  ensures [C18] value: r.Value == sp_chase(reference.parser, reference.Number, OLD(resolved_references))
  ensures [C18] nodata: IFF(r.Stream == nil, sp_circular(reference.parser, reference.Number, OLD(resolved_references)) || !sp_isstream(reference.parser, sp_target(reference.parser, reference.Number, OLD(resolved_references))))
  ensures [C18] data: EQ(r.Stream, ITE(sp_circular(reference.parser, reference.Number, OLD(resolved_references)), []byte{}, sp_read(reference.parser, sp_target(reference.parser, reference.Number, OLD(resolved_references)))))

func Reference.Resolve(reference; r)
  props C18
  reveal sp_deref
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 10
  ensures [C18] value: r == sp_deref(reference)

func Reference.ResolveStream(reference; r)
  props C18
  reveal sp_stream, sp_hasstream, sp_data
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 10
  ensures [C18] nodata: IFF(r == nil, !sp_hasstream(reference))
  ensures [C18] data: EQ(r, sp_stream(reference))
