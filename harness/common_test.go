package pdf

// Bounded complement of the proofs: it runs the real code against the
// executable specification functions. Its output is read by gocv.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

var vNowMem []byte
var vSeq int64
var vStart = time.Now()
var vWitCount = map[string]int{}
var vTotal, vDistinct int
var vSeen = map[uint64]bool{}

func vSeed() int64 {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return int64(n)
}

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// vPick chooses a bound by tier.
func vPick(quick, thorough int) int {
	if vThorough() {
		return thorough
	}
	return quick
}

func vLimit() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_LIMIT"))
	if n == 0 {
		n = 120
	}
	return time.Duration(n) * time.Second
}

// vTimeLeft reports whether more cases may be started.
func vTimeLeft() bool { return time.Since(vStart) < vLimit()/2 }

func vWorkDir() string {
	if d := os.Getenv("VERIF_WORK"); d != "" {
		return d
	}
	return os.TempDir()
}

func init() {
	f, err := os.Create(filepath.Join(vWorkDir(), "now"))
	if err == nil {
		if f.Truncate(8192) == nil {
			if m, err := syscall.Mmap(int(f.Fd()), 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				vNowMem = m
			}
		}
		f.Close()
	}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			s := atomic.LoadInt64(&vSeq)
			if s != last {
				last, since = s, time.Now()
			} else if s%2 == 1 && time.Since(since) > 25*time.Second {
				t := strings.TrimRight(string(vNowMem), "\x00")
				fmt.Printf("\nWITNESS hang no answer after 25 s on %s\n", strings.ReplaceAll(t, "\n", " "))
				os.Exit(1)
			}
		}
	}()
}

func vHash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

// vCall runs one case on the real code and reports a panic as a failing input.
func vCall(key string, input string, f func()) (ok bool) {
	vTotal++
	h := vHash([]byte(key + "\x00" + input))
	if len(vSeen) < 2000000 && !vSeen[h] {
		vSeen[h] = true
		vDistinct++
		if vDistinct%(1+vDistinct/3) == 0 && vDistinct < 1000 {
			fmt.Printf("SAMPLE %s %s\n", key, vShow(input))
		}
	}
	if vNowMem != nil {
		n := copy(vNowMem, key+" "+vShow(input))
		for n < len(vNowMem) && vNowMem[n] != 0 {
			vNowMem[n] = 0
			n++
		}
	}
	atomic.AddInt64(&vSeq, 1)
	defer atomic.AddInt64(&vSeq, 1)
	defer func() {
		if r := recover(); r != nil {
			ok = false
			vWit("panic:"+key+":"+vWhere(), "%s: panic %v on input %s", key, r, vShow(input))
		}
	}()
	f()
	return true
}

// vWhere names the function of the code under test that panicked.
func vWhere() string {
	pc := make([]uintptr, 40)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/KarmaPenny/pdfparser/pdf.") && !strings.Contains(f.File, "_test.go") {
			return strings.TrimPrefix(f.Function, "github.com/KarmaPenny/pdfparser/pdf.")
		}
		if !more {
			return "?"
		}
	}
}

func vShow(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return strconv.Quote(s)
}

// vWit reports a failing input; key identifies the kind of failure.
func vWit(key, format string, args ...interface{}) {
	vWitCount[key]++
	if vWitCount[key] > 3 {
		return
	}
	s := fmt.Sprintf(format, args...)
	s = strings.ReplaceAll(s, "\n", "\\n")
	fmt.Printf("\nWITNESS %s %s\n", strings.ReplaceAll(key, " ", "_"), s)
}

func vRule(format string, args ...interface{}) { fmt.Printf("RULE "+format+"\n", args...) }

func vDone() {
	fmt.Printf("\nCASES %d %d\n", vTotal, vDistinct)
	vTotal, vDistinct = 0, 0
}

// vBytes compares byte strings.
func vBytes(key, input string, got, want []byte) {
	if !bytes.Equal(got, want) {
		vWit(key, "%s on %s gives %s, specified is %s", key, vShow(input), vShow(string(got)), vShow(string(want)))
	}
}

// vRand is a small deterministic generator.
type vRand struct{ s uint64 }

func vNewRand(name string) *vRand {
	return &vRand{vHash([]byte(name)) ^ uint64(vSeed())*0x9E3779B97F4A7C15 | 1}
}

func (r *vRand) u64() uint64 {
	r.s ^= r.s << 13
	r.s ^= r.s >> 7
	r.s ^= r.s << 17
	return r.s * 2685821657736338717
}
func (r *vRand) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int((r.u64() >> 11) % uint64(n))
}
func (r *vRand) b() byte         { return byte(r.u64() >> 24) }
func (r *vRand) coin(n int) bool { return r.n(n) == 0 }
func (r *vRand) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = r.b()
	}
	return b
}
func (r *vRand) from(alpha string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.n(len(alpha))]
	}
	return b
}
func (r *vRand) pick(s ...string) string { return s[r.n(len(s))] }

// vEnum enumerates every string over the alphabet up to a length.
func vEnum(alpha string, maxLen int, f func(b []byte)) {
	var rec func(b []byte)
	rec = func(b []byte) {
		f(append([]byte{}, b...))
		if len(b) == maxLen {
			return
		}
		for i := 0; i < len(alpha); i++ {
			rec(append(b, alpha[i]))
		}
	}
	rec(make([]byte, 0, maxLen))
}
