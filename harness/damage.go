//go:build go1.22

package main

import (
	"bytes"
	"io"

	"github.com/klauspost/compress/zstd"
)

// damageStream cuts or damages the registry blob inside of its compressed stream,
// so that loading fails after some lists were read.
func damageStream(b []byte, kind int) []byte {
	if len(b) < 2 {
		return nil
	}
	dec, err := zstd.NewReader(bytes.NewReader(b[1:]))
	must(err)
	plain, err := io.ReadAll(dec)
	must(err)
	dec.Close()
	switch kind {
	case 0: // no end marker
		plain = plain[:len(plain)-1]
	case 1: // cut within the last list
		plain = plain[:len(plain)-8]
	default: // garbage instead of the end marker
		plain = append(plain[:len(plain)-1], 0x91, 0xc1)
	}
	var out bytes.Buffer
	out.WriteByte(b[0])
	enc, err := zstd.NewWriter(&out)
	must(err)
	_, err = enc.Write(plain)
	must(err)
	must(enc.Close())
	return out.Bytes()
}
