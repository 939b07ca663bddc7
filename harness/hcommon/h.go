// Package hcommon holds the harnesses for hashes and chunk readers.
package hcommon

import (
	"bytes"
	"errors"
	"io"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/sym"
)

// nib is the value of a hex digit.
func nib(c byte) byte { return c&15 + 9*(c>>6) }

// hexDigit and lowerHex mark the characters that are hex digits.
var hexDigit, lowerHex = tables()

func tables() (a, l [256]bool) {
	for c := '0'; c <= '9'; c++ {
		a[c], l[c] = true, true
	}
	for c := 'a'; c <= 'f'; c++ {
		a[c], l[c] = true, true
	}
	for c := 'A'; c <= 'F'; c++ {
		a[c] = true
	}
	return a, l
}

func arbHash(name string) *common.Sha1Hash {
	h := &common.Sha1Hash{}
	copy(h.Data[:], sym.Bytes(name, 20))
	return h
}

// H01Text: the checked conversion accepts exactly 40 hex digits.
func H01Text() {
	n := []int{40, 0, 1, 2, 20, 38, 39, 41, 42, 80}[sym.Choose("len", 10)]
	s := sym.Str("s", n)
	h := arbHash("old")
	old := *h
	err := h.FromStringSafe(s)
	valid := n == 40
	if valid {
		for i := 0; i < n; i++ {
			ok := hexDigit[s[i]]
			valid = valid && ok
		}
	}
	sym.Assert((err == nil) == valid, "exactly 40 hex digits are accepted")
	if err != nil {
		sym.Reach("refused")
		sym.Assert(*h == old, "a refused text leaves the hash as it was")
		return
	}
	sym.Reach("accepted")
	for i := 0; i < 20; i++ {
		sym.Assert(h.Data[i] == nib(s[2*i])<<4|nib(s[2*i+1]), "every digit pair is one byte")
	}
	sym.Observe("b0", h.Data[0])
	sym.Observe("b19", h.Data[19])
}

func H01RoundTrip() {
	h := arbHash("h")
	s := h.String()
	sym.Assert(len(s) == 40, "40 digits")
	for i := 0; i < 40; i++ {
		sym.Assert(lowerHex[s[i]], "lower-case hex digits")
	}
	if sym.Choose("case", 2) == 1 {
		up := []byte(s)
		for i := range up {
			up[i] &^= up[i] >> 1 & 0x20
		}
		s = string(up)
	}
	g := arbHash("g")
	sym.Assert(g.FromStringSafe(s) == nil, "accepted")
	sym.Assert(*g == *h, "the same hash comes back")
	k := &common.Sha1Hash{}
	sym.Assert(k.FromString(s) == k && *k == *h, "also from the unchecked conversion")
	sym.Observe("s", h.String())
}

func H01Slices() {
	h := arbHash("h")
	old := *h
	n := []int{20, 0, 1, 19, 21, 40}[sym.Choose("len", 6)]
	b := sym.Bytes("b", n)
	err := h.FromSliceSafe(b)
	sym.Assert((err == nil) == (n == 20), "exactly 20 bytes are accepted")
	if err != nil {
		sym.Assert(*h == old, "a refused slice leaves the hash as it was")
		return
	}
	sym.Assert(bytes.Equal(h.Slice(), b), "bytes survive")
	g := (&common.Sha1Hash{}).FromSlice(h.Slice())
	sym.Assert(*g == *h, "there and back")
	sym.Assert(*h.Array() == h.Data, "the array is the hash")
	// independence
	b[3] ^= 1
	sym.Assert(*g == *h, "the hash does not share the given slice")
	c := h.SliceCopy()
	sym.Assert(bytes.Equal(c, g.Data[:]), "the copy has the bytes")
	i := sym.Choose("i", 20)
	c[i] ^= 0x55
	sym.Assert(*g == *h, "a copied slice is independent of the hash")
	h.Slice()[i] ^= 0x55
	sym.Assert(h.Data[i] == g.Data[i]^0x55, "the shared slice is the hash")
	sym.Observe("g", g.Slice())
}

func H01Blank() {
	h := arbHash("h")
	all := true
	for i := 0; i < 20; i++ {
		all = all && h.Data[i] == 255
	}
	sym.Assert(h.IsBlank() == all, "only the blank hash is blank")
	r := h.Blank()
	sym.Assert(r == h && h.IsBlank(), "blanking")
	for i := 0; i < 20; i++ {
		sym.Assert(h.Data[i] == 255, "blank is all FF")
	}
	sym.Observe("all", all)
}

// ---- H02

// H02File: the hash of a file is that of all its bytes, however the reads are split.
func H02File() {
	vos.Reset()
	n := []int{0, 1, 2, 5, 4095, 4096, 4097, 8192, 8193}[sym.Choose("len", sym.Param("lens", 9))]
	var data []byte
	if n < 10 {
		data = sym.Bytes("d", n)
	} else {
		data = make([]byte, n)
		for i := range data {
			data[i] = byte(i*7 + i>>8)
		}
		data[n-1] = sym.U8("last")
		data[0] = sym.U8("first")
	}
	vos.Put("/data/f", data)
	reads := 0
	vos.ReadChunk = func(k int) int {
		reads++
		if reads > sym.Param("splits", 4) {
			return k
		}
		switch sym.Choose("split", 4) {
		case 1:
			return 1
		case 2:
			if k > 1 {
				return k - 1
			}
		case 3:
			if reads < 3 {
				return 0 // an empty read
			}
		}
		return k
	}
	h, err := common.HashFile("/data/f")
	vos.ReadChunk = nil
	sym.Assert(err == nil && h != nil, "a readable file has a hash")
	want := sym.SHA1(data)
	sym.Assert(h.Data == want, "the hash is that of exactly the file's bytes")
	sym.Assert(vos.OpenHandles == 0, "the file is closed again")
	sym.Observe("n", n)
}

// H02Again: a hash is that of what the file holds now, not of what it, or another file, held before.
func H02Again() {
	vos.Reset()
	first := sym.Bytes("d", 1+sym.Choose("len", 3))
	second := sym.Bytes("e", len(first))
	if sym.Choose("longer", 2) == 1 {
		second = append(second, sym.U8("more"))
	}
	vos.Put("/data/f", first)
	h, err := common.HashFile("/data/f")
	sym.Assert(err == nil && h.Data == sym.SHA1(first), "the hash of the file")
	path := []string{"/data/f", "/data/g", "/other/f"}[sym.Choose("path", 3)]
	vos.Put(path, second)
	if sym.Choose("date", 2) == 0 {
		vos.SetMTime(path, 1000000000)
	}
	g, err := common.HashFile(path)
	sym.Assert(err == nil && g.Data == sym.SHA1(second), "the hash of what is there now")
	sym.Assert(h.Data == sym.SHA1(first), "the hash given before stays")
	cr := common.NewChunkReader(io.NewSectionReader(&src{data: first}, 0, int64(len(first))))
	cs := common.NewChunkReader(io.NewSectionReader(&src{data: second}, 0, int64(len(second))))
	sym.Assert(cr.Hash.Data == h.Data && cs.Hash.Data == g.Data, "and so for readers")
	vos.Remove(path)
	_, err = common.HashFile(path)
	sym.Assert(err != nil, "a file that is gone has no hash")
	sym.Observe("n", len(second))
}

func H02FileError() {
	vos.Reset()
	n := []int{0, 3, 4096, 5000, 9000}[sym.Choose("len", 5)]
	vos.Put("/data/f", make([]byte, n))
	at := sym.Choose("at", 5)
	hit := false
	k := 0
	vos.Fault = func(op, path string) error {
		if k == at {
			hit = true
			k++
			return vos.ErrFault
		}
		k++
		return nil
	}
	h, err := common.HashFile("/data/f")
	vos.Fault = nil
	if hit {
		sym.Reach("fault")
		sym.Assert(err != nil, "an error while reading is reported")
		sym.Assert(h == nil, "and gives no hash")
	} else {
		sym.Assert(err == nil && h.Data == sym.SHA1(make([]byte, n)), "no error, the right hash")
	}
	sym.Assert(vos.OpenHandles == 0, "the file is closed again")
	_, err = common.HashFile("/data/none")
	sym.Assert(err != nil, "a missing file has no hash")
	sym.Observe("hit", hit)
}

// src is a section of bytes behind a reader that may report the end of file together with the data
// and may fail.
type src struct {
	data    []byte
	eofWith bool
	failAt  int
	n       int
}

var errSrc = errors.New("disk error")

func (s *src) ReadAt(p []byte, off int64) (int, error) {
	s.n++
	if s.failAt > 0 && s.n >= s.failAt {
		k := 0
		if sym.Choose("partial", 2) == 1 && off < int64(len(s.data)) {
			k = copy(p[:len(p)/2], s.data[off:])
		}
		return k, errSrc
	}
	if off >= int64(len(s.data)) {
		return 0, io.EOF
	}
	k := copy(p, s.data[off:])
	if k < len(p) || (s.eofWith && off+int64(k) == int64(len(s.data))) {
		return k, io.EOF
	}
	return k, nil
}

func content(name string, n int) []byte {
	if n <= 16 {
		return sym.Bytes(name, n)
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*13 + i>>8*5)
	}
	d[0] = sym.U8(name)
	d[n-1] = sym.U8(name)
	d[n/2] = sym.U8(name)
	return d
}

// H02Chunk: a chunk reader's hash and size are those of exactly its section.
func H02Chunk() {
	total := []int{0, 1, 6, 4096, 4100, 8192, 9000}[sym.Choose("total", 7)]
	data := content("d", total)
	start := []int{0, 1, 3, 4096}[sym.Choose("start", 4)]
	size := []int{0, 1, 4, 4096, 5000, 100000}[sym.Choose("size", 6)]
	sec := data[:0]
	if start < total {
		end := start + size
		if end > total {
			end = total
		}
		sec = data[start:end]
	}
	s := &src{data: data, eofWith: sym.Bool("eofWith")}
	cr := common.NewChunkReader(io.NewSectionReader(s, int64(start), int64(size)))
	sym.Assert(cr.Size == int64(len(sec)), "the size is that of the section")
	sym.Assert(cr.Hash.Data == sym.SHA1(sec), "the hash is that of the section")
	sym.Observe("size", int(cr.Size))
}

// H02ChunkError: a read error ends hashing (that it is reported is checked through the catalogue).
func H02ChunkError() {
	total := []int{5, 4096, 9000}[sym.Choose("total", 3)]
	s := &src{data: make([]byte, total), failAt: 1 + sym.Choose("at", 3)}
	cr := common.NewChunkReader(io.NewSectionReader(s, 0, int64(total)))
	buf := make([]byte, 10)
	if s.n >= s.failAt {
		sym.Reach("failed")
		sym.Assert(cr == nil || cr.Size <= int64(total), "no more bytes than there are")
	} else {
		sym.Assert(cr.Size == int64(total), "no error, all of it")
		cr.Read(buf)
	}
	sym.Observe("n", s.n)
}

// ---- R01

func R01Read() {
	total := sym.Param("total", 7)
	data := content("d", total)
	start := sym.Choose("start", total+2)
	size := sym.Choose("size", total+2)
	sec := data[:0]
	if start < total {
		end := start + size
		if end > total {
			end = total
		}
		sec = data[start:end]
	}
	s := &src{data: data, eofWith: sym.Bool("eofWith")}
	cr := common.NewChunkReader(io.NewSectionReader(s, int64(start), int64(size)))
	pos := 0
	resets := 0
	k := sym.Param("reads", 4)
	for i := 0; i < k; i++ {
		if resets < 1 && sym.Choose("reset", 2) == 1 {
			resets++
			sym.Assert(cr.Reset() == nil, "reset works")
			pos = 0
		}
		sym.Assert(int(cr.Offset()) == pos, "the offset is where reading continues")
		n := []int{1, 2, 3, 100}[sym.Choose("buf", 4)]
		buf := make([]byte, n)
		got, off, err := cr.Read(buf)
		sym.Assert(int(off) == pos, "each piece comes with its true offset")
		left := len(sec) - pos
		want := n
		if want > left {
			want = left
		}
		sym.Assert(got == want, "each read yields what is left, up to the buffer")
		sym.Assert(bytes.Equal(buf[:got], sec[pos:pos+got]), "the bytes of the chunk in order")
		if left == 0 {
			sym.Assert(err == io.EOF && got == 0, "the end is reported as end of file")
			sym.Reach("eof")
		} else {
			sym.Assert(err == nil || (err == io.EOF && got == left), "no error before the end")
		}
		pos += got
	}
	sym.Observe("pos", pos)
}

// R01Big: larger chunks and buffers.
func R01Big() {
	total := []int{1000, 1024, 2048, 5000}[sym.Choose("total", 4)]
	data := content("d", total)
	cr := common.NewChunkReader(io.NewSectionReader(&src{data: data}, 0, int64(total)))
	first := []int{1000, 1024, 24, 4096}[sym.Choose("first", 4)]
	buf := make([]byte, first)
	n, off, err := cr.Read(buf)
	sym.Assert(err == nil && off == 0, "first piece")
	sym.Assert(bytes.Equal(buf[:n], data[:n]) && n > 0, "first bytes")
	if sym.Bool("reset") {
		cr.Reset()
		n = 0
	}
	pos := n
	for pos < total {
		b := make([]byte, 1024)
		n, off, err := cr.Read(b)
		sym.Assert(err == nil && n > 0 && int(off) == pos, "next piece")
		sym.Assert(bytes.Equal(b[:n], data[pos:pos+n]), "next bytes")
		pos += n
	}
	_, off, err = cr.Read(buf)
	sym.Assert(err == io.EOF && int(off) == total, "end of file")
	sym.Observe("pos", pos)
}
