package pdf

// Specification prelude. These functions are ordinary executable Go: the
// verifier gives them their logical meaning, the test harness simply runs them.

// OLD is the value an expression had on entry to the function.
func OLD[T any](x T) T { return x }

// PRE is the value an expression had when the loop was entered.
func PRE[T any](x T) T { return x }

// IMP is implication, IFF and EQ are equality.
func IMP(a, b bool) bool { return !a || b }
func IFF(a, b bool) bool { return a == b }

func ITE[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// EQ compares byte strings and other comparable values.
func EQ[T any](a, b T) bool { return sp_equal(any(a), any(b)) }

func HAS[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

func MPUT[M ~map[K]V, K comparable, V any](m M, k K, v V) M {
	r := M{}
	for a, b := range m {
		r[a] = b
	}
	r[k] = v
	return r
}

func MDEL[M ~map[K]V, K comparable, V any](m M, k K) M {
	r := M{}
	for a, b := range m {
		if a != k {
			r[a] = b
		}
	}
	return r
}

func MUNION[M ~map[K]V, K comparable, V any](m, n M) M {
	r := M{}
	for a, b := range m {
		r[a] = b
	}
	for a, b := range n {
		r[a] = b
	}
	return r
}

// REP is n copies of a byte.
func REP(b byte, n int) []byte {
	if n < 0 {
		n = 0
	}
	r := make([]byte, n)
	for i := range r {
		r[i] = b
	}
	return r
}

// CAT concatenates.
func CAT[S ~[]T, T any](a, b S) S { return append(append(S{}, a...), b...) }

// UPD replaces the i-th byte.
func UPD(d []byte, i int, b byte) []byte { return CAT(d[:i], CAT([]byte{b}, d[i+1:])) }

// SEEN: the key was already visited by the enclosing map range loop.
func SEEN(k any) bool { panic("ghost") }

// NOTYPE: the interface value is nil.
func NOTYPE(x any) bool { return x == nil }

// ISNEW: the object was allocated by the call.
func ISNEW(x any) bool { return true }

// ALL is universal quantification.
func ALL(f any) bool { panic("ghost") }

// Ghost state of library objects.

// g_buf is the content of a buffer, or everything written to a writer.
func g_buf(x any) []byte { panic("ghost") }

// g_data and g_off: the underlying bytes of a reader and its position in them.
func g_data(x any) []byte { panic("ghost") }
func g_off(x any) int     { panic("ghost") }

// g_last: the last byte read can be put back. g_log: the messages in an error report.
func g_last(x any) bool  { panic("ghost") }
func g_log(x any) []byte { panic("ghost") }

// g_tty is what was written to standard output or standard error.
func g_tty(x any) []byte { panic("ghost") }

// g_fail: reading everything ends in an error other than the end of the data.
func g_fail(x any) bool { panic("ghost") }

// UNDER is e where the field loc is v.
func UNDER[T, R any](loc, v T, e R) R { panic("ghost") }

// g_key, g_iv: the key and the initialization vector of a cipher.
func g_key(x any) []byte { panic("ghost") }
func g_iv(x any) []byte  { panic("ghost") }
