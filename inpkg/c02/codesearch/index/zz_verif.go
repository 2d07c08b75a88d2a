package index

import (
	"bytes"
	"encoding/binary"
	"io/ioutil"
	"os"

	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

// VerifVarint: every 32-bit number survives being written and read.
func VerifVarint() {
	x, y := verifrt.Uint32("x"), verifrt.Uint32("y")
	b := bufCreate(hx.Dir("v") + "/f")
	b.writeUvarint(x)
	b.writeUvarint(y)
	v, n := binary.Uvarint(b.buf)
	verifrt.Assert(n > 0 && uint32(v) == x && v>>32 == 0, "a number changes when it is written and read")
	w, k := binary.Uvarint(b.buf[n:])
	verifrt.Assert(k > 0 && uint32(w) == y, "a number changes when it is written and read")
	verifrt.Assert(n+k == len(b.buf), "bytes are left over after a number")
	verifrt.Reach("read")
}

// VerifBuf: what is written through the buffer reaches the file, wherever the buffer is full.
func VerifBuf() {
	const size = 8
	b := bufCreate(hx.Dir("v") + "/f")
	b.buf = make([]byte, 0, size)
	var want []byte
	for i := 0; i < 4; i++ {
		switch verifrt.Choose("op", 6) {
		case 0:
			x := verifrt.Uint32("x")
			b.writeUint32(x)
			want = append(want, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
		case 1:
			x := verifrt.Uint32("t") & (1<<24 - 1)
			b.writeTrigram(x)
			want = append(want, byte(x>>16), byte(x>>8), byte(x))
		case 2:
			s := verifrt.Bytes("s", 1+4*verifrt.Choose("len", 3))
			b.writeString(string(s))
			want = append(want, s...)
		case 3:
			x := verifrt.Byte("b")
			b.writeByte(x)
			want = append(want, x)
		case 4:
			s := verifrt.Bytes("w", 1+4*verifrt.Choose("len", 3))
			b.write(s)
			want = append(want, s...)
		case 5:
			b.flush()
		}
		verifrt.Assert(b.offset() == uint32(len(want)), "the offset is not the number of bytes written")
	}
	f := b.finish()
	got, err := ioutil.ReadAll(f)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, want), "the file does not hold what was written")
	f.Close()
	os.Remove(b.name)
}

// VerifHeap: the heap delivers all entries of all chunks in order.
func VerifHeap() {
	nc, ne := 3, 2
	if verifrt.Tier() > 0 {
		nc, ne = 4, 2
	}
	var h postHeap
	var all []postEntry
	for i := 0; i < nc; i++ {
		var c []postEntry
		n := verifrt.Choose("entries", ne+1)
		for k := 0; k < n; k++ {
			e := postEntry(verifrt.Uint64("entry"))
			verifrt.Assume(e < 1<<56-1<<32)
			if k > 0 {
				verifrt.Assume(c[k-1] < e)
			}
			// a file is added to one chunk only
			for _, a := range all {
				verifrt.Assume(a != e)
			}
			c = append(c, e)
		}
		all = append(all, c...)
		h.addMem(c)
	}
	var got []postEntry
	for range all {
		got = append(got, h.next())
	}
	verifrt.Assert(h.next().trigram() == 1<<24-1, "the heap does not end")
	for i := range got {
		if i > 0 {
			verifrt.Assert(got[i-1] < got[i], "the heap delivers entries out of order or twice")
		}
		in := false
		for _, a := range all {
			in = verifrt.Or(in, a == got[i])
		}
		verifrt.Assert(in, "the heap delivers an entry that was not added")
	}
	verifrt.Reach("delivered")
}

// VerifSort: entries are sorted by trigram and then by file.
func VerifSort() {
	n := 3
	if verifrt.Tier() > 0 {
		n = 4
	}
	vals := []uint32{0, 1, 0xfff, 0x1000, 0x1001, 0xfff000, 0xffeffe, 0x800800}
	var in, post []postEntry
	for i := 0; i < n; i++ {
		in = append(in, makePostEntry(vals[verifrt.Choose("trigram", len(vals))], uint32(i)))
	}
	post = append(post, in...)
	sortPost(post)
	for i := 1; i < n; i++ {
		verifrt.Assert(post[i-1] < post[i], "entries are not sorted")
	}
	for _, e := range in {
		k := 0
		for _, p := range post {
			if p == e {
				k++
			}
		}
		verifrt.Assert(k == 1, "sorting loses or repeats an entry")
	}
}

// VerifFlush: an index built with a tiny memory buffer, so that entries are flushed to files in between.
func VerifFlush() {
	data := []string{"abcd", "bcde", "zzabc", "xbcd", "dabc"}
	w := Create(hx.Dir("ix") + "/tri")
	bufs := []int{1, 2, 4}
	n := 3
	if verifrt.Tier() > 0 {
		bufs = []int{1, 2, 3, 4, 5}
		n = 2 + verifrt.Choose("files", 3)
	}
	w.post = make([]postEntry, 0, bufs[verifrt.Choose("buffer", len(bufs))])
	var in []string
	for i := 0; i < n; i++ {
		d := data[verifrt.Choose("data", len(data))]
		if verifrt.Tier() == 0 && i > 1 {
			d = data[i]
		}
		in = append(in, d)
		w.Add(d, bytes.NewReader([]byte(d)))
	}
	w.Flush()
	w.Close()
	ix := Open(hx.Dir("ix") + "/tri")
	t := verifrt.Bytes("t", 3)
	got := ix.PostingList(uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2]))
	k := 0
	for i, d := range in {
		want := false
		for j := 0; j+3 <= len(d); j++ {
			want = verifrt.Or(want, verifrt.And(t[0] == d[j], verifrt.And(t[1] == d[j+1], t[2] == d[j+2])))
		}
		has := k < len(got) && got[k] == uint32(i)
		if has {
			k++
			verifrt.Assert(want, "with intermediate flushes: a file is listed that does not hold the trigram")
		} else {
			verifrt.Assert(!want, "with intermediate flushes: a file that holds the trigram is not listed")
		}
		verifrt.Assert(ix.Name(uint32(i)) == d, "with intermediate flushes: a file id has another name")
	}
	verifrt.Assert(k == len(got), "with intermediate flushes: the list is out of order or has duplicates")
	verifrt.Reach("flushed")
}
