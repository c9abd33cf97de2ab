package pdf

// What references resolve to, for the bounded checks: the real code.
func sp_deref(r *Reference) Object   { return r.Resolve() }
func sp_stream(r *Reference) []byte  { return r.ResolveStream() }
func sp_hasstream(r *Reference) bool { return r.ResolveStream() != nil }

func sp_unread() int { return 0 }
