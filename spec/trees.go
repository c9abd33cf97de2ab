package pdf

// sp_deref_known: a reference that leads to a dictionary or array names an object in the table.
func sp_deref_known(r *Reference) bool {
	return !sp_isdict(sp_deref(r)) && !sp_isarray(sp_deref(r)) || HAS(r.parser.Xref, r.Number)
}

// sp_pages is the page tree below d: d, then the trees of the children it refers to that
// were not seen.
func sp_pages(d Dictionary, seen map[int]interface{}) []Dictionary {
	return CAT([]Dictionary{d}, sp_pagekids(sp_arrof(sp_dget(d, "Kids")), 0, seen))
}

func sp_pagekids(a Array, i int, seen map[int]interface{}) []Dictionary {
	if i < 0 || i >= len(a) {
		return []Dictionary{}
	}
	if r, ok := a[i].(*Reference); ok && !HAS(seen, r.Number) {
		if sp_isdict(sp_deref(r)) {
			return CAT(sp_pages(sp_dictof(sp_deref(r)), MPUT(seen, r.Number, nil)), sp_pagekids(a, i+1, sp_pages_seen(sp_dictof(sp_deref(r)), MPUT(seen, r.Number, nil))))
		}
		return sp_pagekids(a, i+1, MPUT(seen, r.Number, nil))
	}
	return sp_pagekids(a, i+1, seen)
}

// sp_pages_seen are the objects seen after that.
func sp_pages_seen(d Dictionary, seen map[int]interface{}) map[int]interface{} {
	return sp_pagekids_seen(sp_arrof(sp_dget(d, "Kids")), 0, seen)
}

func sp_pagekids_seen(a Array, i int, seen map[int]interface{}) map[int]interface{} {
	if i < 0 || i >= len(a) {
		return seen
	}
	if r, ok := a[i].(*Reference); ok && !HAS(seen, r.Number) {
		if sp_isdict(sp_deref(r)) {
			return sp_pagekids_seen(a, i+1, sp_pages_seen(sp_dictof(sp_deref(r)), MPUT(seen, r.Number, nil)))
		}
		return sp_pagekids_seen(a, i+1, MPUT(seen, r.Number, nil))
	}
	return sp_pagekids_seen(a, i+1, seen)
}

// sp_refof is the reference at position i.
func sp_refof(a Array, i int) *Reference {
	if i >= 0 && i < len(a) {
		if r, ok := a[i].(*Reference); ok {
			return r
		}
	}
	return nil
}

// sp_names is the name tree below d: its names, then the trees of its children that were not
// seen. A list of children may be shared, too.
func sp_names(d Dictionary, seen map[int]interface{}) Array {
	if sp_kidsseen(d, seen) {
		return sp_arrof(sp_dget(d, "Names"))
	}
	return CAT(sp_arrof(sp_dget(d, "Names")), sp_namekids(sp_arrof(sp_dget(d, "Kids")), 0, sp_kidsmark(d, seen)))
}

// sp_kidsseen: the list of children was seen, sp_kidsmark marks it as seen.
func sp_kidsseen(d Dictionary, seen map[int]interface{}) bool {
	r, ok := sp_dat(d, "Kids").(*Reference)
	return ok && HAS(seen, r.Number)
}

func sp_kidsmark(d Dictionary, seen map[int]interface{}) map[int]interface{} {
	if r, ok := sp_dat(d, "Kids").(*Reference); ok {
		return MPUT(seen, r.Number, nil)
	}
	return seen
}

// sp_skipped: the child was seen, sp_seenput marks it as seen.
func sp_skipped(o Object, seen map[int]interface{}) bool {
	r, ok := o.(*Reference)
	return ok && HAS(seen, r.Number)
}

func sp_seenput(o Object, seen map[int]interface{}) map[int]interface{} {
	if r, ok := o.(*Reference); ok {
		return MPUT(seen, r.Number, nil)
	}
	return seen
}

func sp_namekids(a Array, i int, seen map[int]interface{}) Array {
	if i < 0 || i >= len(a) {
		return Array{}
	}
	if sp_skipped(a[i], seen) {
		return sp_namekids(a, i+1, seen)
	}
	return CAT(sp_names(sp_dictof(sp_follow(a[i])), sp_seenput(a[i], seen)), sp_namekids(a, i+1, sp_names_seen(sp_dictof(sp_follow(a[i])), sp_seenput(a[i], seen))))
}

// sp_names_seen are the objects seen after that.
func sp_names_seen(d Dictionary, seen map[int]interface{}) map[int]interface{} {
	if sp_kidsseen(d, seen) {
		return seen
	}
	return sp_namekids_seen(sp_arrof(sp_dget(d, "Kids")), 0, sp_kidsmark(d, seen))
}

func sp_namekids_seen(a Array, i int, seen map[int]interface{}) map[int]interface{} {
	if i < 0 || i >= len(a) {
		return seen
	}
	if sp_skipped(a[i], seen) {
		return sp_namekids_seen(a, i+1, seen)
	}
	return sp_namekids_seen(a, i+1, sp_names_seen(sp_dictof(sp_follow(a[i])), sp_seenput(a[i], seen)))
}

// sp_rootseen: the root of a tree is not its own descendant.
func sp_rootseen(d Dictionary, k string) map[int]interface{} {
	if r, ok := sp_dat(d, k).(*Reference); ok {
		return MPUT(map[int]interface{}{}, r.Number, nil)
	}
	return map[int]interface{}{}
}

// sp_pagetree, sp_nametree: the trees whose root is the entry k.
func sp_pagetree(d Dictionary, k string) []Dictionary {
	if sp_isdict(sp_dget(d, k)) {
		return sp_pages(sp_dictof(sp_dget(d, k)), sp_rootseen(d, k))
	}
	return []Dictionary{}
}

func sp_nametree(d Dictionary, k string) Array {
	if sp_isdict(sp_dget(d, k)) {
		return sp_names(sp_dictof(sp_dget(d, k)), sp_rootseen(d, k))
	}
	return Array{}
}

// sp_refat is the reference under a key.
func sp_refat(d Dictionary, k string) *Reference {
	if r, ok := sp_dat(d, k).(*Reference); ok {
		return r
	}
	return nil
}
