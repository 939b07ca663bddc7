// Package hbitset holds the harnesses for the bitset properties. States are built through
// Deserialize (any members below the size) or through histories of the public operations.
package hbitset

import (
	"encoding/binary"

	"github.com/flu-network/client/common/bitset"
	"github.com/flu-network/client/zzverif/sym"
)

var sizes = []int{0, 1, 2, 7, 63, 64, 65, 100, 128, 129, 192}

// arb is an arbitrary bitset of the given size.
func arb(name string, size int) *bitset.Bitset {
	words := (size + 63) / 64
	b := make([]byte, 8+8*words)
	binary.BigEndian.PutUint64(b, uint64(size))
	for w := 0; w < words; w++ {
		v := sym.U64(name)
		if w == words-1 && size%64 != 0 {
			v &= 1<<uint(size%64) - 1
		}
		binary.BigEndian.PutUint64(b[8+8*w:], v)
	}
	s, err := bitset.Deserialize(b)
	sym.Assert(err == nil, "well-formed bitset data must be accepted")
	return s
}

func pickSize(name string) int { return sizes[sym.Choose(name, sym.Param("sizes", len(sizes)))] }

// few is a bitset of the given size whose members are free only in a window; outside of it all
// indices are members or none is.
func few(name string, size, from, to int) *bitset.Bitset {
	b := bitset.NewBitset(size)
	if sym.Bool(name + "rest") {
		b.Fill()
	}
	for i := from; i < to && i < size; i++ {
		if sym.Bool(name) {
			b.Set(uint64(i))
		} else {
			b.Unset(uint64(i))
		}
	}
	return b
}

// ---- B01

func B01Step() {
	n := pickSize("size")
	b := arb("w", n)
	q := sym.U64("q")
	before := b.Get(q)
	sym.Assert(!before || q < uint64(n), "no members at or above the size")
	max := uint64(sym.Param("maxindex", 260))
	switch sym.Choose("op", 3) {
	case 0:
		i := sym.U64("i")
		sym.Assume(i < max)
		b.Set(i)
		sym.Assert(b.Get(q) == (before || q == i), "Set changes exactly the index that is set")
		sz := n
		if int(i)+1 > sz {
			sz = int(i) + 1
		}
		sym.Assert(b.Size() == sz, "the size is the larger of the old size and index+1")
		sym.Reach("set")
	case 1:
		i := sym.U64("i")
		b.Unset(i)
		sym.Assert(b.Get(q) == (before && q != i), "Unset changes exactly the index that is unset")
		sym.Assert(b.Size() == n, "Unset leaves the size")
		sym.Reach("unset")
	case 2:
		b.Fill()
		sym.Assert(b.Get(q) == (q < uint64(n)), "Fill makes exactly the indices below the size members")
		sym.Assert(b.Size() == n, "Fill leaves the size")
		sym.Reach("fill")
	}
	sym.Observe("get", b.Get(q))
	sym.Observe("ser", b.Serialize())
}

func B01Copy() {
	n := pickSize("size")
	b := arb("w", n)
	q := sym.U64("q")
	before := b.Get(q)
	c := b.Copy()
	sym.Assert(c.Get(q) == before && c.Size() == n, "a copy equals its original")
	chg, oth := b, c
	if sym.Choose("side", 2) == 1 {
		chg, oth = c, b
	}
	i := sym.U64("i")
	sym.Assume(i < uint64(sym.Param("maxindex", 200)))
	switch sym.Choose("op", 3) {
	case 0:
		chg.Set(i)
	case 1:
		chg.Unset(i)
	case 2:
		chg.Fill()
	}
	sym.Assert(oth.Get(q) == before && oth.Size() == n, "changing one does not change the other")
	// both grow into the same spare room
	j := uint64(sym.Param("maxindex", 200)) - 1
	oth.Set(j)
	g := chg.Get(q)
	oth.Unset(j)
	oth.Set(j)
	sym.Assert(chg.Get(q) == g, "changing one does not change the other")
	sym.Observe("oth", oth.Get(q))
}

type ev struct {
	op int
	i  uint64
}

func B01History() {
	n := []int{0, 3, 64}[sym.Choose("size", 3)]
	b := bitset.NewBitset(n)
	sym.Assert(b.Size() == n, "a new bitset has the size asked for")
	q := sym.U64("q")
	sym.Assert(!b.Get(q), "a new bitset has no members")
	mem := false
	sz := n
	k := sym.Param("k", 3)
	lim := uint64(sym.Param("lim", 130))
	for s := 0; s < k; s++ {
		i := uint64(0)
		op := sym.Choose("op", 4)
		if op < 2 {
			i = sym.U64("i")
			sym.Assume(i < lim)
		}
		switch op {
		case 0:
			b.Set(i)
			mem = mem || q == i
			if int(i)+1 > sz {
				sz = int(i) + 1
			}
		case 1:
			b.Unset(i)
			mem = mem && q != i
		case 2:
			b.Fill()
			mem = mem || q < uint64(sz)
		case 3:
			b = b.Copy()
		}
		sym.Assert(b.Get(q) == mem, "membership follows the history")
		sym.Assert(b.Size() == sz, "size follows the history")
	}
	sym.Observe("get", b.Get(q))
	sym.Observe("size", b.Size())
}

// ---- B02

func B02Count() {
	sel := sym.Choose("size", 6)
	var b *bitset.Bitset
	n := []int{0, 1, 9, 64, 66, 130}[sel]
	switch n {
	case 64:
		b = few("m", n, 58, 64)
	case 66:
		b = few("m", n, 61, 66)
	case 130:
		b = few("m", n, 124, 130)
	default:
		b = arb("w", n)
	}
	cnt := 0
	full := true
	for i := 0; i < n; i++ {
		if b.Get(uint64(i)) {
			cnt++
		} else {
			full = false
		}
	}
	sym.Assert(b.Full() == full, "full exactly when every index below the size is a member")
	sym.Assert(b.Count() == cnt, "the count is the number of members")
	b.Fill()
	sym.Assert(b.Full(), "full after filling")
	sym.Assert(b.Count() == n, "filling makes size members")
	sym.Assert(b.Size() == n, "filling leaves the size")
	q := sym.U64("q")
	sym.Assert(b.Get(q) == (q < uint64(n)), "filling adds no index at or above the size")
	sym.Observe("cnt", cnt)
	sym.Observe("full", full)
}

// B02Full: every size up to the bound, one arbitrary index missing or none.
func B02Full() {
	n := sym.Choose("n", sym.Param("n", 140))
	b := bitset.NewBitset(n)
	sym.Assert(b.Full() == (n == 0), "a new bitset is full only if empty")
	b.Fill()
	sym.Assert(b.Full() && b.Count() == n && b.Size() == n, "filled")
	if n > 0 {
		i := sym.U64("i")
		sym.Assume(i < uint64(n))
		b.Unset(i)
		sym.Assert(!b.Full(), "not full when an index is missing")
		b.Set(i)
		sym.Assert(b.Full(), "full again")
	}
	// growing past the size
	b.Set(uint64(n) + 1)
	sym.Assert(!b.Full(), "the index between is missing")
	b.Set(uint64(n))
	sym.Assert(b.Full(), "all there")
	sym.Observe("n", b.Size())
}

// ---- B03

// reference: maximal runs of members (want=true) or non-members in [from, to]
func runs(b *bitset.Bitset, from, to int, want bool) []int {
	var out []int
	open := false
	for i := from; i <= to; i++ {
		if b.Get(uint64(i)) == want {
			if !open {
				out = append(out, i)
				open = true
			}
		} else if open {
			out = append(out, i-1)
			open = false
		}
	}
	if open {
		out = append(out, to)
	}
	return out
}

func sameU16(a []uint16, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if int(a[i]) != b[i] {
			return false
		}
	}
	return true
}

func stateB03() (*bitset.Bitset, int) {
	switch sym.Choose("kind", 5) {
	case 0:
		n := sym.Choose("n", sym.Param("small", 8)+1)
		return few("m", n, 0, n), n
	case 1:
		return few("m", 70, 61, 67), 70
	case 2:
		return few("m", 64, 60, 64), 64
	case 3:
		return few("m", 130, 126, 130), 130
	default:
		return few("m", 128, 125, 128), 128
	}
}

func B03Ranges() {
	b, n := stateB03()
	r := b.Ranges()
	sym.Assert(sameU16(r, runs(b, 0, n-1, true)), "Ranges lists the maximal runs of members")
	u := b.UnfilledRanges()
	w := runs(b, 0, n-1, false)
	sym.Assert(len(u)*2 == len(w), "UnfilledRanges lists every run of non-members")
	for i := range u {
		sym.Assert(int(u[i].Start) == w[2*i] && int(u[i].End) == w[2*i+1], "UnfilledRanges lists the maximal runs of non-members")
	}
	k := []int{0, 1, 2, 5, 200}[sym.Choose("count", 5)]
	items := b.UnfilledItems(k)
	p := 0
	for i := 0; i < n && p < k; i++ {
		if !b.Get(uint64(i)) {
			sym.Assert(p < len(items) && int(items[p]) == i, "UnfilledItems lists the smallest non-members in order")
			p++
		}
	}
	sym.Assert(len(items) == p, "UnfilledItems lists no more than there are")
	sym.Observe("ranges", len(r))
	sym.Observe("unf", len(u))
}

func B03Overlap() {
	n := sym.Param("n", 6)
	b := few("m", n, 0, n)
	lim := sym.Param("lim", 8)
	k := sym.Choose("len", 6)
	rs := make([]uint16, k)
	last := -1
	for i := range rs {
		v := sym.Choose("r", lim)
		if i%2 == 1 {
			sym.Assume(v >= last)
		} else {
			sym.Assume(v > last)
		}
		last = v
		rs[i] = uint16(v)
	}
	got := b.Overlap(rs)
	var want []int
	for i := 0; i+1 < k; i += 2 {
		want = append(want, runs(b, int(rs[i]), int(rs[i+1]), true)...)
	}
	if k%2 == 0 {
		sym.Assert(sameU16(got, want), "Overlap lists the maximal runs of members inside the ranges")
	}
	sym.Observe("n", len(got))
}

// B03OverlapWide: runs and ranges that cross word boundaries.
func B03OverlapWide() {
	n, at := 130, 62
	switch sym.Choose("size", 3) {
	case 1:
		n, at = 200, 126
	case 2:
		n, at = 66, 62
	}
	b := few("m", n, at, at+sym.Param("free", 4))
	vals := []int{0, at - 1, at, at + 1, at + 2, at + 3, at + 10, n - 1, n, n + 70}
	k := 2 + 2*sym.Choose("pairs", 2)
	rs := make([]uint16, k)
	last := -1
	for i := range rs {
		v := vals[sym.Choose("r", len(vals))]
		if i%2 == 1 {
			sym.Assume(v >= last)
		} else {
			sym.Assume(v > last)
		}
		last = v
		rs[i] = uint16(v)
	}
	got := b.Overlap(rs)
	var want []int
	for i := 0; i+1 < k; i += 2 {
		want = append(want, runs(b, int(rs[i]), int(rs[i+1]), true)...)
	}
	sym.Assert(sameU16(got, want), "Overlap lists the maximal runs of members inside the ranges")
	sym.Observe("n", len(got))
}

// B03OverlapAny: any list whatsoever is survived (it comes from the network).
func B03OverlapAny() {
	n := []int{0, 5, 12}[sym.Choose("n", 3)]
	b := bitset.NewBitset(n)
	if n > 0 {
		b.Fill()
	}
	k := sym.Choose("len", 4)
	rs := make([]uint16, k)
	vals := []uint16{0, 1, 3, 4, 11, 12, 13, 65534, 65535}
	for i := range rs {
		rs[i] = vals[sym.Choose("r", len(vals))]
	}
	if k >= 2 { // short runs only: a run over all 65536 numbers is tried in B03Top
		sym.Assume(rs[1] < 80 || rs[0] > 65500)
	}
	got := b.Overlap(rs)
	sym.Assert(len(got)%2 == 0, "whole pairs")
	for i := 0; i+1 < len(got); i += 2 {
		sym.Assert(got[i] <= got[i+1] && int(got[i+1]) < n, "only members are reported")
	}
	sym.Observe("n", len(got))
}

// B03Top: the highest index the protocol can name.
func B03Top() {
	b := bitset.NewBitset(65536)
	if sym.Bool("top") {
		b.Set(65535)
	}
	if sym.Bool("below") {
		b.Set(65534)
	}
	r := b.Overlap([]uint16{65533, 65535})
	sym.Assert(sameU16(r, runs(b, 65533, 65535, true)), "Overlap up to 65535")
	sym.Assert(sameU16(b.Ranges(), runs(b, 65530, 65535, true)), "Ranges up to 65535")
	u := b.UnfilledRanges()
	want := runs(b, 65530, 65535, false)
	sym.Assert(len(u)*2 == len(want) && u[0].Start == 0 && int(u[len(u)-1].End) == want[len(want)-1], "UnfilledRanges up to 65535")
	sym.Observe("r", len(r))
}

// ---- B04

func B04RoundTrip() {
	var b *bitset.Bitset
	n := pickSize("size")
	if sym.Choose("how", 2) == 0 {
		b = arb("w", n)
	} else {
		// through a history
		b = bitset.NewBitset(n)
		i := sym.U64("i")
		sym.Assume(i < 150)
		b.Set(i)
		n = b.Size()
	}
	q := sym.U64("q")
	before := b.Get(q)
	ser := b.Serialize()
	c, err := bitset.Deserialize(ser)
	sym.Assert(err == nil, "what was serialised deserialises")
	sym.Assert(c.Size() == n, "the size survives")
	sym.Assert(c.Get(q) == before, "the members survive")
	// no shared storage
	i := sym.U64("j")
	sym.Assume(i < uint64(n)+1)
	c.Set(i)
	sym.Assert(b.Get(q) == before && b.Size() == n, "changing the result does not change the original")
	after := c.Get(q)
	for k := range ser {
		ser[k] ^= 0xff
	}
	sym.Assert(c.Get(q) == after, "changing the bytes does not change the result")
	sym.Assert(b.Get(q) == before, "changing the bytes does not change the original")
	b.Unset(q)
	b.Fill()
	sym.Assert(c.Get(q) == after, "changing the original does not change the result")
	sym.Observe("n", n)
	sym.Observe("get", before)
}

func B04Arbitrary() {
	data := sym.Bytes("d", sym.Choose("len", sym.Param("len", 34)))
	b, err := bitset.Deserialize(data)
	if err != nil {
		sym.Assert(b == nil, "an error comes without a bitset")
		sym.Observe("err", true)
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	n := b.Size()
	sym.Assert(n >= 0, "a size is not negative")
	q := sym.U64("q")
	in := b.Get(q)
	sym.Assert(!in || q < uint64(n), "no members at or above the size")
	b.Copy()
	ser := b.Serialize()
	c, err := bitset.Deserialize(ser)
	sym.Assert(err == nil, "what was accepted can be written and read again")
	sym.Assert(c.Get(q) == in && c.Size() == n, "and is the same")
	b.Full()
	b.Fill()
	sym.Assert(b.Full(), "usable: full after filling")
	sym.Assert(b.Get(q) == (q < uint64(n)), "usable: filled")
	b.Unset(q)
	sym.Assert(!b.Get(q), "usable: unset")
	sym.Observe("n", n)
}

// B04Queries: every query works on an accepted bitset (one word, so that all sizes can be tried).
func B04Queries() {
	data := sym.Bytes("d", 16)
	b, err := bitset.Deserialize(data)
	if err != nil {
		return
	}
	sym.Assume(b.Size() <= sym.Param("max", 6) || b.Size() > 64)
	b.Print()
	cnt := b.Count()
	n := sym.Concrete(b.Size())
	sym.Assert(cnt <= n, "no more members than the size")
	r := b.Ranges()
	sym.Assert(len(r)%2 == 0, "ranges are pairs")
	b.UnfilledRanges()
	b.UnfilledItems(3)
	b.Overlap([]uint16{0, 3, 5, 9})
	b.Union(b.Copy())
	b.Intersect(b.Copy())
	sym.Observe("n", n)
}

// large is a bitset of one of several sizes up to the largest number of chunks there can be, with
// arbitrary members in one of its words and none or all elsewhere.
func large() (b *bitset.Bitset, n, base, free int, rest bool) {
	ns := []int{65536, 300, 65535, 1024, 4097, 256, 65537, 100000}
	n = ns[sym.Choose("large", sym.Param("large", 5))]
	words := (n + 63) / 64
	word := []int{0, words - 1, words / 2, words - 2}[sym.Choose("word", 4)]
	rest = sym.Choose("rest", 2) == 1
	b = bitset.NewBitset(n)
	if rest {
		b.Fill()
	}
	base = 64 * word
	free = sym.Param("free", 2)
	for k := 0; k < free; k++ {
		at := base + []int{0, 63, 62, 1}[k]
		if at >= n {
			at = n - 1
		}
		if sym.Bool("m") {
			b.Set(uint64(at))
		} else {
			b.Unset(uint64(at))
		}
	}
	return
}

// B04Large: round trips of large bitsets.
func B04Large() {
	b, n, base, _, rest := large()
	c, err := bitset.Deserialize(b.Serialize())
	sym.Assert(err == nil, "what was serialised deserialises")
	sym.Assert(c.Size() == n, "the size survives")
	for k := -65; k < 130; k++ {
		i := uint64(base + k)
		sym.Assert(c.Get(i) == b.Get(i), "the members survive")
	}
	for _, i := range []int{0, 1, 63, 64, 127, 128, 255, 256, n / 3, n - 65, n - 2} {
		if i < base || i >= base+64 {
			sym.Assert(c.Get(uint64(i)) == (rest || b.Get(uint64(i))), "the members survive")
		}
	}
	sym.Assert(c.Count() == b.Count() && c.Full() == b.Full(), "it counts as before")
	sym.Observe("count", c.Count())
}

// grown is a bitset that was created with one of several sizes and then grew twice, to include two
// arbitrary indices in the words that follow.
func grown() *bitset.Bitset {
	n := []int{0, 1, 64, 65, 128, 200, 256, 300, 640, 1000}[sym.Choose("base", sym.Param("bases", 10))]
	b := bitset.NewBitset(n)
	if sym.Choose("filled", 2) == 1 {
		b.Fill()
	}
	for k := 0; k < 2; k++ {
		i := sym.U64("i")
		sym.Assume(i < 64)
		b.Set(uint64(n/64*64) + uint64(64*sym.Choose("words", sym.Param("words", 3))) + i)
	}
	return b
}

// B04Grown: round trips of bitsets that have grown.
func B04Grown() {
	b := grown()
	q := sym.U64("q")
	sym.Assume(q < 1500)
	c, err := bitset.Deserialize(b.Serialize())
	sym.Assert(err == nil, "what was serialised deserialises")
	sym.Assert(c.Size() == b.Size(), "the size survives")
	sym.Assert(c.Get(q) == b.Get(q), "the members survive")
	sym.Assert(c.Full() == b.Full(), "full as before")
	sym.Observe("size", c.Size())
}

// B01Large: copies and changes of large bitsets.
func B01Large() {
	b, n, base, _, _ := large()
	i := base + []int{0, 63, -1, 64, 5}[sym.Choose("i", 5)]
	if i < 0 {
		i = 0
	}
	was := b.Get(uint64(i))
	cnt := b.Count()
	c := b.Copy()
	if sym.Choose("op", 2) == 0 {
		b.Set(uint64(i))
		sym.Assert(b.Get(uint64(i)), "set")
		if !was {
			cnt++
		}
		if i >= n {
			sym.Assert(b.Size() == i+1, "it has grown")
		} else {
			sym.Assert(b.Size() == n, "it has not grown")
		}
	} else {
		b.Unset(uint64(i))
		sym.Assert(!b.Get(uint64(i)), "unset")
		if was {
			cnt--
		}
		sym.Assert(b.Size() == n, "it has not grown")
	}
	sym.Assert(b.Count() == cnt, "only that index has changed")
	sym.Assert(c.Get(uint64(i)) == was && c.Size() == n, "the copy has not changed")
	for _, k := range []int{-2, -1, 1, 2, 64, -64, 128} {
		if j := i + k; j >= 0 {
			sym.Assert(b.Get(uint64(j)) == c.Get(uint64(j)), "no other index has changed")
		}
	}
	sym.Observe("cnt", cnt)
}

// B02Large: counting and filling large bitsets.
func B02Large() {
	b, n, _, free, rest := large()
	cnt := b.Count()
	if rest {
		sym.Assert(cnt <= n && cnt >= n-free, "the count is the number of members")
	} else {
		sym.Assert(cnt >= 0 && cnt <= free, "the count is the number of members")
	}
	sym.Assert(b.Full() == (cnt == n), "full exactly if every index is a member")
	b.Fill()
	sym.Assert(b.Full() && b.Count() == n && b.Size() == n, "full when filled")
	sym.Assert(b.Get(uint64(n-1)) && !b.Get(uint64(n)), "filled up to its size")
	sym.Observe("cnt", cnt)
}

// B03Large: ranges of large bitsets.
func B03Large() {
	b, n, base, _, _ := large()
	if n > 65536 {
		return // chunk numbers are 16 bits wide
	}
	r := b.Ranges()
	total, prev := 0, -2
	for k := 0; k+1 < len(r); k += 2 {
		lo, hi := int(r[k]), int(r[k+1])
		sym.Assert(lo <= hi && lo > prev+1, "ranges are increasing and maximal")
		sym.Assert(b.Get(uint64(lo)) && b.Get(uint64(hi)) && !b.Get(uint64(hi+1)) && (lo == 0 || !b.Get(uint64(lo-1))), "ranges are maximal")
		total += hi - lo + 1
		prev = hi
	}
	sym.Assert(total == b.Count(), "the ranges hold all members")
	left := 0
	prev = -2
	for _, x := range b.UnfilledRanges() {
		lo, hi := int(x.Start), int(x.End)
		sym.Assert(lo <= hi && lo > prev+1 && hi < n, "ranges are increasing and maximal")
		sym.Assert(!b.Get(uint64(lo)) && !b.Get(uint64(hi)), "ranges are of what is missing")
		left += hi - lo + 1
		prev = hi
	}
	sym.Assert(left+total == n, "the missing ranges hold everything else")
	items := b.UnfilledItems(3)
	want := n - total
	if want > 3 {
		want = 3
	}
	sym.Assert(len(items) == want, "the first missing items")
	for k, x := range items {
		sym.Assert(!b.Get(uint64(x)) && (k == 0 || items[k-1] < x), "the first missing items")
	}
	lo := base - 2
	if lo < 0 {
		lo = 0
	}
	hi := base + 65
	if hi > 65535 {
		hi = 65535
	}
	o := b.Overlap([]uint16{uint16(lo), uint16(hi)})
	cnt := 0
	for k := 0; k+1 < len(o); k += 2 {
		cnt += int(o[k+1]) - int(o[k]) + 1
	}
	have := 0
	for i := lo; i <= hi; i++ {
		if b.Get(uint64(i)) {
			have++
		}
	}
	sym.Assert(cnt == have, "the overlap holds the members asked for")
	sym.Observe("total", total)
}

// ---- B05

func B05Algebra() {
	ss := []int{0, 1, 6, 63, 64, 65, 130}
	n, m := ss[sym.Choose("n", len(ss))], ss[sym.Choose("m", len(ss))]
	a, b := arb("a", n), arb("b", m)
	q := sym.U64("q")
	ga, gb := a.Get(q), b.Get(q)
	u := a.Union(b)
	i := a.Intersect(b)
	sym.Assert(u.Get(q) == (ga || gb), "the union has a member exactly where either has")
	sym.Assert(i.Get(q) == (ga && gb), "the intersection has a member exactly where both have")
	big, small := n, m
	if m > n {
		big, small = m, n
	}
	sym.Assert(u.Size() == big, "the union's size is the larger one")
	sym.Assert(i.Size() == small, "the intersection's size is the smaller one")
	sym.Assert(a.Get(q) == ga && b.Get(q) == gb && a.Size() == n && b.Size() == m, "the operands are unchanged")
	// results share nothing
	x := sym.U64("x")
	sym.Assume(x < 140)
	u.Set(x)
	u.Unset(x)
	i.Set(x)
	i.Fill()
	sym.Assert(a.Get(q) == ga && b.Get(q) == gb, "changing the results does not change the operands")
	ug := u.Get(q)
	a.Fill()
	b.Fill()
	sym.Assert(u.Get(q) == ug, "changing the operands does not change the result")
	// results behave as bitsets
	sym.Assert(i.Full(), "a filled intersection is full")
	sym.Observe("u", ug)
	sym.Observe("us", u.Size())
}

// ---- sequences of operations with questions in between

// ops runs a short sequence of operations (union, intersection, copies and serialisation among
// them), asking the given question or not before each of them, and returns the outcome.
func ops(ask func(*bitset.Bitset)) *bitset.Bitset {
	n, at := 6, 0
	if sym.Choose("size", 2) == 1 {
		n, at = 66, 62
	}
	b := bitset.NewBitset(n)
	if sym.Choose("rest", 2) == 1 {
		b.Fill()
	}
	free := sym.Param("free", 2)
	for i := at; i < at+free; i++ {
		if sym.Choose("m", 2) == 1 {
			b.Set(uint64(i))
		} else {
			b.Unset(uint64(i))
		}
	}
	other := bitset.NewBitset(at + 8).Set(uint64(at + 1)).Set(uint64(at + 7))
	k := sym.Param("k", 2)
	idx := []uint64{uint64(at), uint64(at + 3), uint64(n + 1)}
	for s := 0; s < k; s++ {
		if sym.Choose("ask", 2) == 1 {
			ask(b)
			ask(other)
		}
		switch op := sym.Choose("op", 12); op {
		case 0, 1, 2:
			b.Set(idx[op])
		case 3, 4, 5:
			b.Unset(idx[op-3])
		case 6:
			b.Fill()
		case 7: // go on with the copy, change the original
			c := b.Copy()
			b.Set(idx[1])
			b.Unset(idx[0])
			b = c
		case 8: // go on with the original, change the copy
			c := b.Copy()
			c.Set(idx[1])
			c.Unset(idx[0])
			ask(c)
		case 9:
			b = b.Union(other)
		case 10:
			b = other.Intersect(b)
		case 11:
			c, err := bitset.Deserialize(b.Serialize())
			sym.Assert(err == nil, "serialised data is accepted")
			b = c
		}
	}
	return b
}

// shadow reads the members of a bitset one by one into a fresh one.
func shadow(b *bitset.Bitset) *bitset.Bitset {
	s := bitset.NewBitset(b.Size())
	for i := 0; i < b.Size(); i++ {
		if b.Get(uint64(i)) {
			s.Set(uint64(i))
		}
	}
	return s
}

// B02Ops: counts after sequences of operations.
func B02Ops() {
	b := ops(func(x *bitset.Bitset) { x.Count(); x.Full(); x.Size() })
	c := 0
	for i := 0; i < b.Size(); i++ {
		if b.Get(uint64(i)) {
			c++
		}
	}
	sym.Assert(b.Count() == c, "Count counts the members whatever was done before")
	sym.Assert(b.Full() == (c == b.Size()), "Full says whether all are members whatever was done before")
	sym.Observe("c", c)
}

// B03Ops: runs after sequences of operations.
func B03Ops() {
	b := ops(func(x *bitset.Bitset) { x.Ranges(); x.UnfilledRanges(); x.UnfilledItems(3); x.Overlap([]uint16{0, 70}) })
	n := b.Size()
	w := runs(b, 0, n-1, true)
	sym.Assert(sameU16(b.Ranges(), w), "Ranges lists the maximal runs of members whatever was done before")
	sym.Assert(sameU16(b.Overlap([]uint16{0, 90}), w), "Overlap lists the maximal runs of members whatever was done before")
	u := b.UnfilledRanges()
	w = runs(b, 0, n-1, false)
	sym.Assert(len(u)*2 == len(w), "UnfilledRanges lists every run whatever was done before")
	for i := range u {
		sym.Assert(int(u[i].Start) == w[2*i] && int(u[i].End) == w[2*i+1], "UnfilledRanges lists the maximal runs whatever was done before")
	}
	items := b.UnfilledItems(3)
	p := 0
	for i := 0; i < n && p < 3; i++ {
		if !b.Get(uint64(i)) {
			sym.Assert(p < len(items) && int(items[p]) == i, "UnfilledItems lists the smallest non-members whatever was done before")
			p++
		}
	}
	sym.Assert(len(items) == p, "UnfilledItems lists no more than there are")
	// the answers are the caller's own
	if len(u) > 0 {
		u[0].End = 9999
		v := b.UnfilledRanges()
		sym.Assert(int(v[0].Start) == w[0] && int(v[0].End) == w[1], "an answer can be changed without changing later ones")
	}
	if r := b.Ranges(); len(r) > 0 {
		r[0] = 9999
		sym.Assert(sameU16(b.Ranges(), runs(b, 0, n-1, true)), "an answer can be changed without changing later ones")
	}
	sym.Observe("n", n)
}

// B04Ops: serialisation after sequences of operations.
func B04Ops() {
	b := ops(func(x *bitset.Bitset) {
		s := x.Serialize()
		for i := range s { // the bytes are the caller's own
			s[i] ^= 0x5a
		}
	})
	want := shadow(b)
	ser := b.Serialize()
	for round := 0; round < 2; round++ {
		c, err := bitset.Deserialize(ser)
		sym.Assert(err == nil && c.Size() == want.Size(), "serialised data is accepted whatever was done before")
		for i := range ser { // nor do they belong to the bitset that was read from them
			ser[i] ^= 0x33
		}
		for i := 0; i < want.Size()+1; i++ {
			sym.Assert(c.Get(uint64(i)) == want.Get(uint64(i)) && b.Get(uint64(i)) == want.Get(uint64(i)), "members survive the round trip whatever was done before")
		}
		ser = b.Serialize()
	}
	sym.Observe("n", want.Size())
}

// B05Ops: union and intersection after sequences of operations.
func B05Ops() {
	b := ops(func(x *bitset.Bitset) { x.Size(); x.Get(1); x.Union(x); x.Intersect(x) })
	o := bitset.NewBitset(70).Set(2).Set(63).Set(69)
	if sym.Choose("empty", 2) == 1 {
		o = bitset.NewBitset(0)
	}
	wb, wo := shadow(b), shadow(o)
	i := sym.U64("i")
	u, v := b.Union(o), o.Intersect(b)
	sym.Assert(u.Size() == maxInt(wb.Size(), wo.Size()), "the size of a union")
	{
		sym.Assert(u.Get(i) == (wb.Get(i) || wo.Get(i)), "the members of a union whatever was done before")
		sym.Assert(v.Get(i) == (wb.Get(i) && wo.Get(i)), "the members of an intersection whatever was done before")
	}
	// the results are independent of their operands
	b.Fill()
	o.Set(1)
	{
		sym.Assert(u.Get(i) == (wb.Get(i) || wo.Get(i)), "a union does not change with its operands")
		sym.Assert(v.Get(i) == (wb.Get(i) && wo.Get(i)), "an intersection does not change with its operands")
	}
	u.Fill()
	v.Set(0)
	{
		sym.Assert(o.Get(i) == (wo.Get(i) || i == 1), "an operand does not change with the result")
		sym.Assert(b.Get(i) == (i < uint64(wb.Size())), "an operand does not change with the result")
	}
	sym.Observe("n", u.Size())
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
