package pdf

// sp_strs is the strings among the elements of an array, joined.
func sp_strs(a Array) []byte {
	if len(a) == 0 {
		return []byte{}
	}
	return CAT([]byte(sp_strof(sp_follow(a[0]))), sp_strs(a[1:]))
}

// sp_cmdops: the operands of a command are the objects before its keyword.
func sp_cmdops(p *Parser, d []byte, i int, k int) bool {
	return sp_noop(d, i) || sp_cmdops(p, d, sp_obj_end(d, i), k-1)
}

func sp_refto(p *Parser, n int, g int) *Reference { return &Reference{p, n, g} }

// sp_empty: the parser has no objects.
func sp_empty(p *Parser) bool { return EQ(p.Xref, map[int]*XrefEntry{}) }

// sp_noderef: a reference resolves to null where there are no objects.
func sp_noderef(p *Parser, n int, g int) bool {
	return !sp_empty(p) || sp_deref(sp_refto(p, n, g)) == KEYWORD_NULL
}

// sp_theobj: what an operand resolves to.
func sp_theobj(p *Parser, d []byte, i int) Object { return sp_follow(sp_obj(p, noDecryptor, d, i)) }

// sp_operand, sp_operands: the values of operands do not depend on the parser.
func sp_undecrypted(b []byte) bool { return EQ(sp_decrypt(noDecryptor, b), b) }

func sp_operand_lit(p *Parser, d []byte, i int) bool {
	return i < 0 || !sp_empty(p) || !sp_begins(d, i, '(') || sp_strof(sp_theobj(p, d, i)) == string(sp_ostr(d, i))
}

func sp_operand_hex(p *Parser, d []byte, i int) bool {
	return i < 0 || !sp_empty(p) || !sp_begins(d, i, '<') || sp_begins2(d, i) || sp_strof(sp_theobj(p, d, i)) == string(sp_ostr(d, i))
}

func sp_operand_str(p *Parser, d []byte, i int) bool {
	return i < 0 || !sp_empty(p) || sp_strof(sp_theobj(p, d, i)) == string(sp_ostr(d, i))
}

func sp_operand_name(p *Parser, d []byte, i int) bool {
	return i < 0 || !sp_empty(p) || sp_nameof(sp_theobj(p, d, i)) == sp_oname(d, i)
}

func sp_operand_num(p *Parser, d []byte, i int) bool {
	return i < 0 || !sp_empty(p) || sp_numof(sp_theobj(p, d, i)) == sp_onum(d, i)
}

func sp_operand_arr(p *Parser, d []byte, i int) bool {
	return i < 0 || !sp_empty(p) || EQ(sp_arrof(sp_theobj(p, d, i)), ITE(sp_begins(d, i, '['), sp_arr(p, noDecryptor, d, sp_skip(d, i)+1), Array{}))
}

func sp_operand(p *Parser, d []byte, i int) bool {
	return sp_operand_str(p, d, i) && sp_operand_name(p, d, i) && sp_operand_num(p, d, i) && sp_operand_arr(p, d, i)
}

func sp_operands(p *Parser, d []byte, i int, k int) bool {
	return len(sp_cmd(p, d, i)) == sp_nops(d, i) && (i < 0 || !sp_empty(p) ||
		sp_strof(sp_aget(sp_cmd(p, d, i), k)) == string(sp_opstr(d, i, k)) &&
			sp_nameof(sp_aget(sp_cmd(p, d, i), k)) == sp_opname(d, i, k) &&
			sp_numof(sp_aget(sp_cmd(p, d, i), k)) == sp_opnum(d, i, k) &&
			EQ(sp_strs(sp_arrof(sp_aget(sp_cmd(p, d, i), k))), sp_opstrs(d, i, k)))
}

// sp_arrstrs: nor do the strings of arrays.
func sp_arrstrs(p *Parser, d []byte, i int) bool {
	return (sp_obj_err(d, i) == ReadError || sp_obj_err(d, i) == EndOfArray || sp_arrstrs(p, d, sp_obj_end(d, i))) &&
		(i < 0 || !sp_empty(p) || EQ(sp_strs(sp_arr(p, noDecryptor, d, i)), sp_joined(d, i)))
}
