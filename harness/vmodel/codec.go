package vmodel

import (
	"compress/gzip"
	"encoding/gob"
	"errors"
	"io"

	"github.com/hound-search/hound/verifh/verifrt"
)

// gzip: a framed identity coding. A member is a header, data frames (0x01 len16 bytes) and a
// trailer written by Close, so that a member that was not closed reads as truncated.

type gzW struct {
	w      io.Writer
	header bool
	closed bool
	err    error
}

type gzR struct {
	r    io.Reader
	left int
	done bool
	err  error
}

var (
	gzWs = map[*gzip.Writer]*gzW{}
	gzRs = map[*gzip.Reader]*gzR{}
)

//gosym:model compress/gzip.NewWriter
func gzNewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	gzWs[z] = &gzW{w: w}
	return z
}

//gosym:model compress/gzip.NewWriterLevel
func gzNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) { return gzNewWriter(w), nil }

//gosym:model (*compress/gzip.Writer).Reset
func gzReset(z *gzip.Writer, w io.Writer) { gzWs[z] = &gzW{w: w} }

//gosym:model (*compress/gzip.Writer).Write
func gzWrite(z *gzip.Writer, b []byte) (int, error) {
	s := gzWs[z]
	if s.err != nil {
		return 0, s.err
	}
	out := []byte(nil)
	if !s.header {
		s.header = true
		out = append(out, 0x1f, 0x8b)
	}
	for i := 0; i < len(b); {
		n := len(b) - i
		if n > 65535 {
			n = 65535
		}
		out = append(out, 1, byte(n>>8), byte(n))
		out = append(out, b[i:i+n]...)
		i += n
	}
	if len(out) > 0 {
		if _, err := s.w.Write(out); err != nil {
			s.err = err
			return 0, err
		}
	}
	return len(b), nil
}

//gosym:model (*compress/gzip.Writer).Flush
func gzFlush(z *gzip.Writer) error { return gzWs[z].err }

//gosym:model (*compress/gzip.Writer).Close
func gzClose(z *gzip.Writer) error {
	s := gzWs[z]
	if s.err != nil {
		return s.err
	}
	if s.closed {
		return nil
	}
	s.closed = true
	var out []byte
	if !s.header {
		out = append(out, 0x1f, 0x8b)
	}
	out = append(out, 0, 0x5a)
	_, err := s.w.Write(out)
	s.err = err
	return err
}

//gosym:model compress/gzip.NewReader
func gzNewReader(r io.Reader) (*gzip.Reader, error) {
	h := make([]byte, 2)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	if h[0] != 0x1f || h[1] != 0x8b {
		return nil, gzip.ErrHeader
	}
	z := new(gzip.Reader)
	gzRs[z] = &gzR{r: r}
	return z, nil
}

//gosym:model (*compress/gzip.Reader).Read
func gzRead(z *gzip.Reader, b []byte) (int, error) {
	s := gzRs[z]
	if s.err != nil {
		return 0, s.err
	}
	if len(b) == 0 {
		return 0, nil
	}
	for s.left == 0 {
		h := make([]byte, 2)
		n, err := io.ReadFull(s.r, h)
		if n < 2 {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			s.err = err
			return 0, err
		}
		if h[0] == 0 {
			s.err = io.EOF
			return 0, io.EOF
		}
		l := make([]byte, 1)
		if _, err := io.ReadFull(s.r, l); err != nil {
			s.err = io.ErrUnexpectedEOF
			return 0, s.err
		}
		s.left = int(h[1])<<8 | int(l[0])
	}
	n := len(b)
	if n > s.left {
		n = s.left
	}
	k, err := io.ReadFull(s.r, b[:n])
	s.left -= k
	if err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		s.err = err
		return k, err
	}
	return k, nil
}

//gosym:model (*compress/gzip.Reader).Close
func gzRClose(z *gzip.Reader) error { return nil }

//gosym:model (*compress/gzip.Reader).Reset
func gzRReset(z *gzip.Reader, r io.Reader) error {
	h := make([]byte, 2)
	if _, err := io.ReadFull(r, h); err != nil {
		return err
	}
	if h[0] != 0x1f || h[1] != 0x8b {
		return gzip.ErrHeader
	}
	gzRs[z] = &gzR{r: r}
	return nil
}

// gob: a value is written as a token that names a deep copy of it. The token is written in two
// pieces, as the real encoder writes type information before the value.

var (
	gobVals []interface{}
	gobEs   = map[*gob.Encoder]io.Writer{}
	gobDs   = map[*gob.Decoder]io.Reader{}
)

//gosym:model encoding/gob.NewEncoder
func gobNewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	gobEs[e] = w
	return e
}

//gosym:model encoding/gob.NewDecoder
func gobNewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	gobDs[d] = r
	return d
}

//gosym:model (*encoding/gob.Encoder).Encode
func gobEncode(e *gob.Encoder, v interface{}) error {
	gobVals = append(gobVals, verifrt.DeepCopy(v))
	id := len(gobVals)
	if _, err := gobEs[e].Write([]byte{'G', 'O', 'B'}); err != nil {
		return err
	}
	_, err := gobEs[e].Write([]byte{byte(id >> 8), byte(id), 'v', 'a', 'l'})
	return err
}

//gosym:model (*encoding/gob.Decoder).Decode
func gobDecode(d *gob.Decoder, v interface{}) error {
	b := make([]byte, 8)
	n, err := io.ReadFull(gobDs[d], b)
	if err != nil {
		if n == 0 && err == io.EOF {
			return io.EOF
		}
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	if b[0] != 'G' || b[1] != 'O' || b[2] != 'B' || b[5] != 'v' {
		return errors.New("gob: bad data")
	}
	id := int(b[3])<<8 | int(b[4])
	if id < 1 || id > len(gobVals) {
		return errors.New("gob: bad data")
	}
	src := verifrt.DeepCopy(gobVals[id-1])
	if !verifrt.RIsPtr(v) {
		return errors.New("gob: attempt to decode into a non-pointer")
	}
	dst := v
	s := verifrt.RNew(src)
	for verifrt.RKind(s) == "ptr" {
		s = verifrt.RPtrElem(s)
	}
	return gobAssign(dst, s)
}

func gobAssign(dst, src interface{}) error {
	for verifrt.RKind(dst) == "ptr" {
		if verifrt.RIsNil(dst) {
			dst = verifrt.RPtrAlloc(dst)
		} else {
			dst = verifrt.RPtrElem(dst)
		}
	}
	if verifrt.RKind(src) != "struct" || verifrt.RKind(dst) != "struct" || verifrt.RTypeName(src) == "time.Time" {
		if !verifrt.RAssign(dst, src) {
			return errors.New("gob: type mismatch")
		}
		return nil
	}
	matched := false
	for i := 0; i < verifrt.RNumField(src); i++ {
		if !verifrt.RExported(src, i) {
			continue
		}
		name := verifrt.RFieldName(src, i)
		for j := 0; j < verifrt.RNumField(dst); j++ {
			if verifrt.RExported(dst, j) && verifrt.RFieldName(dst, j) == name {
				matched = true
				if err := gobAssign(verifrt.RField(dst, j), verifrt.RField(src, i)); err != nil {
					return err
				}
			}
		}
	}
	if !matched {
		return errors.New("gob: type mismatch: no fields matched")
	}
	return nil
}
