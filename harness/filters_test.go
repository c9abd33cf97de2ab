package pdf

import "testing"

func TestVerifC09(t *testing.T) {
	vRule("ASCIIHexDecode against sp_asciihex: every string of up to %d symbols over a 10 symbol alphabet, every single byte, random strings", vPick(4, 5))
	one := func(b []byte) {
		in := string(b)
		vCall("ASCIIHexDecode", in, func() {
			got := ASCIIHexDecode([]byte(in))
			vBytes("asciihex", in, got, sp_asciihex([]byte(in), 0))
		})
	}
	vEnum("09aFg \n>\x00\x0b", vPick(4, 5), one)
	for i := 0; i < 65536; i++ {
		one([]byte{byte(i >> 8), byte(i)})
	}
	r := vNewRand("C09")
	for i := 0; i < vPick(20000, 200000) && vTimeLeft(); i++ {
		switch r.n(3) {
		case 0:
			one(r.bytes(r.n(20)))
		case 1:
			one(r.from("0123456789abcdefABCDEF \t\r\n\f\x00", r.n(40)))
		default:
			one(r.from("0123456789abcdefABCDEFgGzZ@`/: \t\r\n\f\x00\v>", r.n(40)))
		}
	}
	vDone()
}

func TestVerifC10(t *testing.T) {
	vRule("ASCII85Decode against sp_ascii85: every string of up to %d symbols over a 9 symbol alphabet, random strings", vPick(5, 6))
	one := func(b []byte) {
		in := string(b)
		vCall("ASCII85Decode", in, func() {
			got := ASCII85Decode([]byte(in))
			vBytes("ascii85", in, got, sp_ascii85([]byte(in), 0, 0, 0))
		})
	}
	vEnum("!uzs8 ~v\n", vPick(5, 6), one)
	r := vNewRand("C10")
	for i := 0; i < vPick(40000, 300000) && vTimeLeft(); i++ {
		switch r.n(3) {
		case 0:
			one(r.bytes(r.n(20)))
		case 1:
			b := r.bytes(r.n(24))
			for j := range b {
				b[j] = '!' + b[j]%85
			}
			one(b)
		default:
			b := r.bytes(r.n(24))
			for j := range b {
				b[j] = '!' + b[j]%85
				if r.coin(6) {
					b[j] = "z \n~v\x00"[r.n(6)]
				}
			}
			one(b)
		}
	}
	vDone()
}

func TestVerifC11(t *testing.T) {
	vRule("RunLengthDecode against sp_runlength: every string of up to %d symbols over an 8 symbol alphabet, every length byte, random strings", vPick(5, 6))
	one := func(b []byte) {
		in := string(b)
		vCall("RunLengthDecode", in, func() {
			got := RunLengthDecode([]byte(in))
			vBytes("runlength", in, got, sp_runlength([]byte(in), 0))
		})
	}
	vEnum("\x00\x01\x02\x80\x81\xff\xfeA", vPick(5, 6), one)
	r := vNewRand("C11")
	for n := 0; n < 256; n++ {
		for _, l := range []int{0, 1, 2, n, n + 1, n + 2, n + 5, 300} {
			one(append([]byte{byte(n)}, r.bytes(l)...))
		}
	}
	for i := 0; i < vPick(20000, 200000) && vTimeLeft(); i++ {
		b := r.bytes(r.n(600))
		for j := range b {
			if r.coin(3) {
				b[j] = byte(r.n(6))
			}
		}
		one(b)
	}
	vDone()
}
