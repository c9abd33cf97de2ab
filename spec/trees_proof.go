package pdf

// sp_unvisited: how many objects of the cross-reference tables were not visited.
func sp_unvisited(seen map[int]interface{}) int { panic("uninterpreted") }

// sp_visit: visiting an object of a table makes one less of them.
func sp_visit(p *Parser, seen map[int]interface{}, n int) bool { panic("uninterpreted") }

// sp_depth is how deep an object is nested.
func sp_depth(o Object) int { panic("uninterpreted") }

// sp_depths: what an object contains is nested less deep.
func sp_depths(d Dictionary, k string) bool { panic("uninterpreted") }
func sp_deptha(a Array, i int) bool        { panic("uninterpreted") }
