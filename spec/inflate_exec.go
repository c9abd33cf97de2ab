package pdf

import (
	"bytes"
	"compress/lzw"
	"compress/zlib"
	tiff_lzw "golang.org/x/image/tiff/lzw"
	"io"
)

// What the decompressors of the libraries make of data: uninterpreted in the proofs.
func sp_zlib_ok(b []byte) bool {
	_, err := zlib.NewReader(bytes.NewReader(b))
	return err == nil
}

func sp_inflate(b []byte) []byte {
	z, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return []byte{}
	}
	r, _ := io.ReadAll(z)
	return r
}

func sp_inflate_bad(b []byte) bool {
	z, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return true
	}
	_, err = io.ReadAll(z)
	return err != nil
}

func sp_lzw0(b []byte) []byte {
	r, _ := io.ReadAll(lzw.NewReader(bytes.NewReader(b), lzw.MSB, 8))
	return r
}

func sp_lzw0_bad(b []byte) bool {
	_, err := io.ReadAll(lzw.NewReader(bytes.NewReader(b), lzw.MSB, 8))
	return err != nil
}

func sp_lzw1(b []byte) []byte {
	r, _ := io.ReadAll(tiff_lzw.NewReader(bytes.NewReader(b), tiff_lzw.MSB, 8))
	return r
}

func sp_lzw1_bad(b []byte) bool {
	_, err := io.ReadAll(tiff_lzw.NewReader(bytes.NewReader(b), tiff_lzw.MSB, 8))
	return err != nil
}
