package pdf

import "bufio"

// sp_unread: how many cross-reference entries there are whose object is not being read.
func sp_unread() int { panic("uninterpreted") }

// sp_marked: marking an object as being read makes one less of them.
func sp_marked(p *Parser, n int) int { panic("uninterpreted") }

// sp_todo: how many cross-reference entries there are that were not visited.
func sp_todo(p *Parser, seen map[int]interface{}) int { panic("uninterpreted") }

// sp_visited: visiting one makes one less of them.
func sp_visited(p *Parser, seen map[int]interface{}, n int) int { panic("uninterpreted") }

// sp_readeron is the buffered reader over a source, sp_ahead how far it has read ahead.
func sp_readeron(s any) *bufio.Reader  { panic("uninterpreted") }
func sp_ahead(r *bufio.Reader) int     { panic("uninterpreted") }
func g_reset(s any) bool               { panic("ghost") }

// g_taken: a buffered reader reads from the source.
func g_taken(s any) bool { panic("ghost") }

// sp_parser_ok: a parser reads from its seeker.
func sp_parser_ok(p *Parser) bool { return p.Reader == sp_readeron(p.seeker) }

// sp_header_end is the position after the object header at i, as far as there is one.
func sp_header_end(d []byte, i int) int {
	if !sp_isint(d, i) {
		return sp_int_end(d, i)
	}
	if !sp_isint(d, sp_int_end(d, i)) {
		return sp_int_end(d, sp_int_end(d, i))
	}
	return sp_keyword_end(d, sp_int_end(d, sp_int_end(d, i)))
}

// sp_isheader: there is an object header at i.
func sp_isheader(d []byte, i int) bool {
	return sp_isint(d, i) && sp_isint(d, sp_int_end(d, i)) && string(sp_keyword(d, sp_int_end(d, sp_int_end(d, i)))) == "obj"
}

// sp_seekpos: seeking to before the start of the file leaves nothing to read.
func sp_seekpos(d []byte, off int64) int {
	if off < 0 {
		return len(d)
	}
	return int(off)
}

// sp_inuse: the cross-reference table has a position for object n.
func sp_inuse(p *Parser, n int) bool {
	return HAS(p.Xref, n) && p.Xref[n].Type == XrefTypeIndirectObject
}

// sp_start is the position of the value of object n.
func sp_start(p *Parser, n int) int {
	return sp_header_end(g_data(p.Reader), sp_seekpos(g_data(p.Reader), p.Xref[n].Offset))
}

// sp_filter is the crypt filter f if object n is encrypted.
func sp_encrypted(p *Parser, n int) bool {
	return p.security_handler != nil && p.Xref[n].IsEncrypted
}

// sp_strings decrypts the strings of object n.
func sp_strings(p *Parser, n int) Decryptor {
	if sp_encrypted(p, n) {
		return sp_decryptor(p.security_handler.string_filter, n, p.Xref[n].Generation)
	}
	return sp_decryptor(CryptFilter(noFilter), n, p.Xref[n].Generation)
}

// sp_value is the value of object n.
func sp_value(p *Parser, n int) Object {
	if !sp_inuse(p, n) {
		return KEYWORD_NULL
	}
	return sp_obj(p, sp_strings(p, n), g_data(p.Reader), sp_start(p, n))
}

// sp_value_own: a reference read from a file refers to that file, and is in the table.
func sp_value_own(p *Parser, n int) bool {
	r, ok := sp_value(p, n).(*Reference)
	return !ok || r.parser == p && HAS(p.Xref, n)
}

// sp_chase follows references from object n on, unless it was seen already or is being read.
func sp_chase(p *Parser, n int, seen map[int]interface{}) Object {
	if HAS(seen, n) || HAS(p.reading, n) {
		return KEYWORD_NULL
	}
	if r, ok := sp_value(p, n).(*Reference); ok {
		return sp_chase(p, r.Number, MPUT(seen, n, nil))
	}
	return sp_value(p, n)
}

// sp_circular: following references from object n on comes back to an object seen or being read.
func sp_circular(p *Parser, n int, seen map[int]interface{}) bool {
	if HAS(seen, n) || HAS(p.reading, n) {
		return true
	}
	if r, ok := sp_value(p, n).(*Reference); ok {
		return sp_circular(p, r.Number, MPUT(seen, n, nil))
	}
	return false
}

// sp_target is the object that following references from object n on ends at.
func sp_target(p *Parser, n int, seen map[int]interface{}) int {
	if HAS(seen, n) || HAS(p.reading, n) {
		return n
	}
	if r, ok := sp_value(p, n).(*Reference); ok {
		return sp_target(p, r.Number, MPUT(seen, n, nil))
	}
	return n
}

// sp_deref is the object a reference resolves to.
func sp_deref(r *Reference) Object {
	return sp_chase(r.parser, r.Number, map[int]interface{}{})
}

// sp_isstream: object n is a stream.
func sp_isstream(p *Parser, n int) bool {
	return sp_inuse(p, n) && string(sp_keyword(g_data(p.Reader), sp_obj_end(g_data(p.Reader), sp_start(p, n)))) == "stream"
}

// sp_filters, sp_parms: the filters of a stream and their parameters.
func sp_filters(d Dictionary) Array {
	if sp_isarray(sp_dget(d, "Filter")) {
		return sp_arrof(sp_dget(d, "Filter"))
	}
	if sp_isname(sp_dget(d, "Filter")) {
		return Array{Name(sp_nameof(sp_dget(d, "Filter")))}
	}
	return Array{}
}

func sp_parms(d Dictionary) Array {
	if sp_isarray(sp_dget(d, "DecodeParms")) {
		return sp_arrof(sp_dget(d, "DecodeParms"))
	}
	if sp_isdict(sp_dget(d, "DecodeParms")) {
		return Array{sp_dictof(sp_dget(d, "DecodeParms"))}
	}
	return Array{}
}

// sp_explicit: an encrypted stream names its crypt filter.
func sp_explicit(p *Parser, n int, d Dictionary) bool {
	return sp_encrypted(p, n) && len(sp_filters(d)) > 0 && sp_nameof(sp_aget(sp_filters(d), 0)) == "Crypt"
}

// sp_cryptname is the name of the crypt filter a stream names.
func sp_cryptname(d Dictionary) string {
	parms := sp_dictof(sp_aget(sp_parms(d), 0))
	if sp_isname(sp_dget(parms, "Name")) {
		return sp_nameof(sp_dget(parms, "Name"))
	}
	return "Identity"
}

// sp_cryptfilter is the crypt filter of a stream.
func sp_cryptfilter(p *Parser, n int, d Dictionary) CryptFilter {
	if !sp_encrypted(p, n) {
		return noFilter
	}
	if sp_explicit(p, n, d) && HAS(p.security_handler.crypt_filters, sp_cryptname(d)) {
		return p.security_handler.crypt_filters[sp_cryptname(d)]
	}
	if sp_nameof(sp_dget(d, "Type")) == "EmbeddedFile" {
		return p.security_handler.file_filter
	}
	return p.security_handler.stream_filter
}

func sp_tail(a Array) Array {
	if len(a) > 0 {
		return a[1:]
	}
	return a
}

// sp_streamdata is the data of stream n with dictionary d, whose keyword ends at i.
func sp_streamdata(p *Parser, n int, d Dictionary, i int) []byte {
	x := sp_decryptor(sp_cryptfilter(p, n, d), n, p.Xref[n].Generation)
	if sp_explicit(p, n, d) {
		return sp_content(x, sp_tail(sp_filters(d)), sp_tail(sp_parms(d)), g_data(p.Reader), i)
	}
	return sp_content(x, sp_filters(d), sp_parms(d), g_data(p.Reader), i)
}

// sp_data is the data of object n.
func sp_data(p *Parser, n int) []byte {
	if !sp_isstream(p, n) {
		return []byte{}
	}
	return sp_streamdata(p, n, sp_dictof(sp_value(p, n)), sp_keyword_end(g_data(p.Reader), sp_obj_end(g_data(p.Reader), sp_start(p, n))))
}

// sp_read is the data of object n, which is not needed to read itself.
func sp_read(p *Parser, n int) []byte {
	return UNDER(p.reading, MPUT(p.reading, n, true), sp_data(p, n))
}

// sp_hasstream, sp_stream: the stream a reference resolves to.
func sp_hasstream(r *Reference) bool {
	return !sp_circular(r.parser, r.Number, map[int]interface{}{}) && sp_isstream(r.parser, sp_target(r.parser, r.Number, map[int]interface{}{}))
}

func sp_stream(r *Reference) []byte {
	if !sp_hasstream(r) {
		return []byte{}
	}
	return sp_read(r.parser, sp_target(r.parser, r.Number, map[int]interface{}{}))
}
