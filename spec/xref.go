package pdf

// sp_hasint: there is an integer of w bytes at i.
func sp_hasint(d []byte, i int, w int) bool { return 0 <= w && w <= 8 && i+w <= len(d) }

func sp_intat(d []byte, i int, w int) int64 { return sp_code(d[i:i+w], 0, 0) }
