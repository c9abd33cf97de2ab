package pdf

// sp_follow is the object itself, or what a reference resolves to.
func sp_follow(o Object) Object {
	if r, ok := o.(*Reference); ok {
		return sp_deref(r)
	}
	return o
}

// sp_dget, sp_aget: the entry of a dictionary or array, resolved; null if there is none.
func sp_dget(d Dictionary, k string) Object {
	if HAS(d, k) {
		return sp_follow(d[k])
	}
	return KEYWORD_NULL
}

func sp_aget(a Array, i int) Object {
	if i >= 0 && i < len(a) {
		return sp_follow(a[i])
	}
	return KEYWORD_NULL
}

// The kinds of objects.
func sp_isarray(o Object) bool { _, ok := o.(Array); return ok }
func sp_isdict(o Object) bool  { _, ok := o.(Dictionary); return ok }
func sp_isname(o Object) bool  { _, ok := o.(Name); return ok }
func sp_isnum(o Object) bool   { _, ok := o.(Number); return ok }
func sp_isstr(o Object) bool   { _, ok := o.(String); return ok }
func sp_isbool(o Object) bool {
	k, ok := o.(Keyword)
	return ok && (string(k) == "true" || string(k) == "false")
}
func sp_isrefobj(o Object) bool { _, ok := o.(*Reference); return ok }

// The values of objects, the zero value for another kind.
func sp_arrof(o Object) Array {
	if x, ok := o.(Array); ok {
		return x
	}
	return Array{}
}

func sp_dictof(o Object) Dictionary {
	if x, ok := o.(Dictionary); ok {
		return x
	}
	return Dictionary{}
}

func sp_nameof(o Object) string {
	if x, ok := o.(Name); ok {
		return string(x)
	}
	return ""
}

func sp_strof(o Object) string {
	if x, ok := o.(String); ok {
		return string(x)
	}
	return ""
}

func sp_numof(o Object) Number {
	if x, ok := o.(Number); ok {
		return x
	}
	return Number(0)
}

func sp_boolof(o Object) bool {
	k, ok := o.(Keyword)
	return ok && string(k) == "true"
}

// sp_hasdata, sp_data: the object a reference entry names has a stream, and its data.
func sp_hasdata(o Object) bool {
	r, ok := o.(*Reference)
	return ok && sp_hasstream(r)
}

func sp_dataof(o Object) []byte {
	if r, ok := o.(*Reference); ok {
		return sp_stream(r)
	}
	return []byte{}
}

func sp_dat(d Dictionary, k string) Object {
	if HAS(d, k) {
		return d[k]
	}
	return KEYWORD_NULL
}

func sp_aat(a Array, i int) Object {
	if i >= 0 && i < len(a) {
		return a[i]
	}
	return KEYWORD_NULL
}
