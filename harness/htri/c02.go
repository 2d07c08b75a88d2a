// Package htri checks the trigram index on disk.
package htri

import (
	"bytes"
	"strings"

	"github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/codesearch/sparse"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

type file struct {
	name string
	data []byte
}

func write(p string, paths []string, files []file) []file {
	w := index.Create(p)
	w.AddPaths(paths)
	var in []file
	for _, f := range files {
		if reason := w.Add(f.name, bytes.NewReader(f.data)); reason == "" {
			in = append(in, f)
		}
	}
	w.Flush()
	w.Close()
	return in
}

func occurs(s string, t []byte) bool {
	r := false
	for i := 0; i+3 <= len(t); i++ {
		r = verifrt.Or(r, verifrt.And(t[i] == s[0], verifrt.And(t[i+1] == s[1], t[i+2] == s[2])))
	}
	return r
}

func checkSet(got []uint32, n int, want func(i int) bool, what string) {
	k := 0
	for i := 0; i < n; i++ {
		has := k < len(got) && got[k] == uint32(i)
		if has {
			k++
			verifrt.Assert(want(i), what+": a file is listed that does not qualify")
		} else {
			verifrt.Assert(!want(i), what+": a file that qualifies is not listed")
		}
	}
	verifrt.Assert(k == len(got), what+": the list has unknown files, duplicates or is out of order")
}

// trigram is an arbitrary three-byte string.
func trigram(tag string) string { return verifrt.String(tag, 3) }

func query(tag string, depth int) *index.Query {
	n := 4
	if depth > 0 {
		n = 8
	}
	t := func(i int) string { return trigram(tag + string(rune('a'+i))) }
	switch verifrt.Choose(tag+"shape", n) {
	case 0:
		return &index.Query{Op: index.QAnd, Trigram: []string{t(0)}}
	case 1:
		return &index.Query{Op: index.QOr, Trigram: []string{t(0), t(1)}}
	case 2:
		return &index.Query{Op: index.QAll}
	case 3:
		return &index.Query{Op: index.QNone}
	case 4:
		return &index.Query{Op: index.QAnd, Trigram: []string{t(0)}, Sub: []*index.Query{query(tag+"x", depth-1)}}
	case 5:
		return &index.Query{Op: index.QOr, Trigram: []string{t(0)}, Sub: []*index.Query{query(tag+"x", depth-1)}}
	case 6:
		return &index.Query{Op: index.QAnd, Sub: []*index.Query{query(tag+"x", depth-1), query(tag+"y", depth-1)}}
	default:
		return &index.Query{Op: index.QOr, Sub: []*index.Query{query(tag+"x", depth-1), query(tag+"y", depth-1)}}
	}
}

func eval(q *index.Query, t []byte) bool {
	r := q.Op == index.QAll || q.Op == index.QAnd
	for _, s := range q.Trigram {
		if q.Op == index.QAnd {
			r = verifrt.And(r, occurs(s, t))
		} else {
			r = verifrt.Or(r, occurs(s, t))
		}
	}
	for _, s := range q.Sub {
		if q.Op == index.QAnd {
			r = verifrt.And(r, eval(s, t))
		} else {
			r = verifrt.Or(r, eval(s, t))
		}
	}
	return r
}

// sets of files to index; some contents are refused by the writer
var sets = [][]string{
	{},
	{"abcd"},
	{"", "abc", "", "abcabc", "xabc"},
	{"bcd", "abcd", "\xc3", "abc", "zz"},
	{"\x00\x00\x00", "é\n", "\U0010ffff", "ab\xfd", "\x7f\x7f\x7f"},
	{"aaa", "aab", "baa", "aaab", "aaa", "aa"},
}

// C02Query evaluates arbitrary queries on a few indexes.
func C02Query() {
	depth := 1
	ss := sets
	if verifrt.Tier() == 0 {
		ss = sets[2:5]
	}
	var fs []file
	for i, s := range ss[verifrt.Choose("files", len(ss))] {
		fs = append(fs, file{"f" + string(rune('0'+i)), []byte(s)})
	}
	p := hx.Dir("ix") + "/tri"
	in := write(p, nil, fs)
	ix := index.Open(p)
	q := query("q", depth)
	got := ix.PostingQuery(q)
	checkSet(got, len(in), func(i int) bool { return eval(q, in[i].data) }, "query")
	for i := range in {
		verifrt.Assert(ix.Name(uint32(i)) == in[i].name, "a file id has another name")
	}
	verifrt.Reach("queried")
}

// chain is a query with depth nested levels, each with or without a trigram of its own and a second
// part before or after the nested one. The words xx0, xx1, ... are used once each.
func chain(depth int, next *int) *index.Query {
	word := func() string {
		w := "xx" + string(rune('0'+*next))
		*next++
		return w
	}
	if depth == 0 {
		switch verifrt.Choose("leaf", 4) {
		case 0:
			return &index.Query{Op: index.QAnd, Trigram: []string{"xx" + verifrt.String("leaf", 1)}}
		case 1:
			return &index.Query{Op: index.QOr, Trigram: []string{word(), "xx" + verifrt.String("leaf", 1)}}
		case 2:
			return &index.Query{Op: index.QAll}
		default:
			return &index.Query{Op: index.QNone}
		}
	}
	q := &index.Query{Op: index.QAnd}
	if verifrt.Choose("or", 2) == 1 {
		q.Op = index.QOr
	}
	if verifrt.Choose("own", 2) == 1 {
		q.Trigram = []string{word()}
	}
	part := verifrt.Choose("part", 4)
	var other *index.Query
	if part > 0 {
		other = &index.Query{Op: index.QAnd, Trigram: []string{word()}}
		if part == 3 {
			other = &index.Query{Op: index.QOr, Trigram: []string{word(), other.Trigram[0]}}
		}
	}
	sub := chain(depth-1, next)
	switch part {
	case 0:
		q.Sub = []*index.Query{sub}
	case 1:
		q.Sub = []*index.Query{sub, other}
	default:
		q.Sub = []*index.Query{other, sub}
	}
	return q
}

// C02Deep evaluates nested queries on an index in which every combination of words occurs.
func C02Deep() {
	depth := 2
	words := 6
	if verifrt.Tier() > 0 {
		depth = 3
		words = 7
	}
	var fs []file
	for i := 0; i < 1<<words; i++ {
		d := ""
		for w := 0; w < words; w++ {
			if i>>w&1 == 1 {
				d += "xx" + string(rune('0'+w)) + "\n"
			}
		}
		fs = append(fs, file{"f" + string(rune('!'+i)), []byte(d)})
	}
	p := hx.Dir("ix") + "/tri"
	in := write(p, nil, fs)
	ix := index.Open(p)
	next := 0
	q := chain(depth, &next)
	verifrt.Assume(next <= words)
	got := ix.PostingQuery(q)
	var holds func(q *index.Query, i int) bool
	holds = func(q *index.Query, i int) bool {
		r := q.Op == index.QAll || q.Op == index.QAnd
		for _, s := range q.Trigram {
			if q.Op == index.QAnd {
				r = verifrt.And(r, occurs(s, in[i].data))
			} else {
				r = verifrt.Or(r, occurs(s, in[i].data))
			}
		}
		for _, s := range q.Sub {
			if q.Op == index.QAnd {
				r = verifrt.And(r, holds(s, i))
			} else {
				r = verifrt.Or(r, holds(s, i))
			}
		}
		return r
	}
	checkSet(got, len(in), func(i int) bool { return holds(q, i) }, "nested query")
	verifrt.Reach("nested")
}

// C02List reads posting lists and combines them with arbitrary lists.
func C02List() {
	ss := sets
	var fs []file
	for i, s := range ss[verifrt.Choose("files", len(ss))] {
		fs = append(fs, file{"f" + string(rune('0'+i)), []byte(s)})
	}
	p := hx.Dir("ix") + "/tri"
	in := write(p, []string{"p", "q/r"}, fs)
	ix := index.Open(p)
	verifrt.Assert(strings.Join(ix.Paths(), "|") == "p|q/r", "the list of paths changes")
	t := trigram("t")
	tri := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
	var l []uint32
	inl := map[int]bool{}
	op := verifrt.Choose("op", 3)
	if op > 0 {
		for i := range in {
			if verifrt.Choose("member", 2) == 1 {
				l = append(l, uint32(i))
				inl[i] = true
			}
		}
	}
	switch op {
	case 0:
		checkSet(ix.PostingList(tri), len(in), func(i int) bool { return occurs(t, in[i].data) }, "posting list")
	case 1:
		checkSet(ix.PostingAnd(l, tri), len(in), func(i int) bool { return verifrt.And(inl[i], occurs(t, in[i].data)) }, "and")
	case 2:
		checkSet(ix.PostingOr(l, tri), len(in), func(i int) bool { return verifrt.Or(inl[i], occurs(t, in[i].data)) }, "or")
	}
	verifrt.Reach("listed")
}

// C02Many: so many files that file numbers and their differences need more than one byte.
func C02Many() {
	n := 300
	p := hx.Dir("ix") + "/tri"
	var fs []file
	at := []int{0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 298, 299}
	a, b := at[verifrt.Choose("a", len(at))], at[verifrt.Choose("b", len(at))]
	for i := 0; i < n; i++ {
		d := "no"
		if i == a || i == b {
			d = "yes"
		}
		fs = append(fs, file{"f" + string(rune('!'+i)), []byte(d)})
	}
	in := write(p, nil, fs)
	ix := index.Open(p)
	checkSet(ix.PostingList('y'<<16|'e'<<8|'s'), n, func(i int) bool { return i == a || i == b }, "posting list")
	verifrt.Assert(len(in) == n && ix.Name(uint32(a)) == fs[a].name && ix.Name(uint32(b)) == fs[b].name, "a file id has another name")
}

// C02Set runs an arbitrary sequence of operations on a sparse set.
func C02Set() {
	n := 4
	if verifrt.Tier() > 0 {
		n = 6
	}
	const max = 8
	s := sparse.NewSet(max)
	var want []uint32 // added since the last reset
	for i := 0; i < n; i++ {
		x := uint32(verifrt.Int("x", 0, max-1))
		has := false
		for _, w := range want {
			has = verifrt.Or(has, w == x)
		}
		switch verifrt.Choose("op", 3) {
		case 0:
			s.Add(x)
			if !has {
				want = append(want, x)
			}
		case 1:
			verifrt.Assert(s.Has(x) == has, "membership is wrong")
		case 2:
			s.Reset()
			want = nil
		}
		d := s.Dense()
		verifrt.Assert(len(d) == len(want) && s.Len() == len(want), "the set has the wrong size")
		for k := range d {
			verifrt.Assert(d[k] == want[k], "the set has the wrong elements")
		}
	}
}
