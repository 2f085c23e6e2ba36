package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// ---------------------------------------------------------------- C17 paged buffers

// BufOp is one operation on a paged buffer.
type BufOp struct {
	Op string `json:"op"` // append, fill, read, write, size, clear, export
	I  int    `json:"i,omitempty"`
	V  int64  `json:"v,omitempty"`
}

// BufCase is a history of one buffer.
type BufCase struct {
	Kind string  `json:"kind"`           // int, long, object
	Exps []int   `json:"exps,omitempty"` // page size options, in order; the last usable one counts
	Ops  []BufOp `json:"ops"`
}

// model of the page size options: negative ones are ignored.
func (bc *BufCase) exp() int {
	e := 10
	for _, x := range bc.Exps {
		if x >= 0 {
			e = x
		}
	}
	return e
}

// objects stored in the object buffer
type boxed struct{ v int64 }

func objectFor(v int64) any {
	switch v % 5 {
	case 0:
		return nil
	case 1:
		return v
	case 2:
		return fmt.Sprint("s", v)
	case 3:
		return boxed{v}
	default:
		return [2]int64{v, -v}
	}
}

// pagedBuffer is what the three buffers have in common.
type pagedBuffer interface {
	append(v int64) error
	read(i int) (any, error)
	write(i int, v int64) error
	want(v int64) any
	size() int
	setSize(n int)
	clear()
	export() ([]any, func(), error) // nil: no such operation; the function scribbles over the slice
	halves(i int) (int32, int32, error, error, bool)
}

type intBuf struct{ b *buffer.FastIntBuffer }

func (x intBuf) append(v int64) error       { return x.b.Append(int32(v)) }
func (x intBuf) read(i int) (any, error)    { return x.b.IntAt(i) }
func (x intBuf) write(i int, v int64) error { return x.b.ModifyEntry(i, int32(v)) }
func (x intBuf) want(v int64) any           { return int32(v) }
func (x intBuf) size() int                  { return x.b.GetSize() }
func (x intBuf) setSize(n int)              { x.b.SetSize(n) }
func (x intBuf) clear()                     { x.b.Clear() }
func (x intBuf) export() ([]any, func(), error) {
	a, err := x.b.ToIntArray()
	out := make([]any, 0, len(a))
	for _, v := range a {
		out = append(out, v)
	}
	return out, func() {
		for i := range a {
			a[i] = -77
		}
	}, err
}
func (x intBuf) halves(int) (int32, int32, error, error, bool) { return 0, 0, nil, nil, false }

type longBuf struct{ b *buffer.FastLongBuffer }

func (x longBuf) append(v int64) error       { return x.b.Append(v) }
func (x longBuf) read(i int) (any, error)    { return x.b.LongAt(i) }
func (x longBuf) write(i int, v int64) error { return x.b.ModifyEntry(i, v) }
func (x longBuf) want(v int64) any           { return v }
func (x longBuf) size() int                  { return x.b.GetSize() }
func (x longBuf) setSize(n int)              { x.b.SetSize(n) }
func (x longBuf) clear()                     { x.b.Clear() }
func (x longBuf) export() ([]any, func(), error) {
	a, err := x.b.ToLongArray()
	out := make([]any, 0, len(a))
	for _, v := range a {
		out = append(out, v)
	}
	return out, func() {
		for i := range a {
			a[i] = -77
		}
	}, err
}
func (x longBuf) halves(i int) (int32, int32, error, error, bool) {
	u, e1 := x.b.Upper32At(i)
	l, e2 := x.b.Lower32At(i)
	return u, l, e1, e2, true
}

type objBuf struct{ b *buffer.FastObjectBuffer }

func (x objBuf) append(v int64) error           { return x.b.Append(objectFor(v)) }
func (x objBuf) read(i int) (any, error)        { return x.b.ObjectAt(i) }
func (x objBuf) write(i int, v int64) error     { return x.b.ModifyEntry(i, objectFor(v)) }
func (x objBuf) want(v int64) any               { return objectFor(v) }
func (x objBuf) size() int                      { return x.b.GetSize() }
func (x objBuf) setSize(n int)                  { x.b.SetSize(n) }
func (x objBuf) clear()                         { x.b.Clear() }
func (x objBuf) export() ([]any, func(), error) { return nil, nil, nil }
func (x objBuf) halves(int) (int32, int32, error, error, bool) {
	return 0, 0, nil, nil, false
}

func newPaged(bc *BufCase) (pagedBuffer, error) {
	switch bc.Kind {
	case "int":
		var o []buffer.FastIntBufferOption
		for _, e := range bc.Exps {
			o = append(o, buffer.WithFastIntBufferPageSize(e))
		}
		b, err := buffer.NewFastIntBuffer(o...)
		if err == nil && b == nil {
			return nil, fmt.Errorf("neither a buffer nor an error")
		}
		return intBuf{b}, err
	case "long":
		var o []buffer.FastLongBufferOption
		for _, e := range bc.Exps {
			o = append(o, buffer.WithFastLongBufferPageSize(e))
		}
		b, err := buffer.NewFastLongBuffer(o...)
		if err == nil && b == nil {
			return nil, fmt.Errorf("neither a buffer nor an error")
		}
		return longBuf{b}, err
	default:
		var o []buffer.FastObjectBufferOption
		for _, e := range bc.Exps {
			o = append(o, buffer.WithFastObjectBufferPageSize(e))
		}
		b, err := buffer.NewFastObjectBuffer(o...)
		if err == nil && b == nil {
			return nil, fmt.Errorf("neither a buffer nor an error")
		}
		return objBuf{b}, err
	}
}

func genBufCase(t *rapid.T) any {
	bc := &BufCase{Kind: pick(t, "int", "long", "object")}
	e := 10
	switch n(t, 0, 9) {
	case 0, 1:
	case 2:
		e = pick(t, 8, 11, 15, 20, 31, 32, 40, 61, 62, 63, 64, 1000)
		bc.Exps = []int{e}
	case 3:
		bc.Exps = []int{pick(t, -1, 3, -100, 63), pick(t, 0, 1, 2, -1, 4)}
		e = bc.exp()
	default:
		e = n(t, 0, 6)
		bc.Exps = []int{e}
	}
	page := 1
	if e < 12 {
		page = 1 << e
	} else {
		page = 1024
	}
	size := 0 // entries, as a guide for the choice of indexes
	idx := func() int {
		switch n(t, 0, 11) {
		case 0:
			return size
		case 1:
			return size + n(t, 1, 2*page+2)
		case 2:
			return pick(t, -1, -2, -page, -page-1, math.MinInt64, math.MaxInt64, math.MaxInt32, math.MinInt32, 1<<32, -1<<32)
		case 3:
			return max(0, size-1)
		case 4:
			return n(t, 0, size/page+1)*page - n(t, 0, 1)
		default:
			return n(t, 0, max(0, size-1))
		}
	}
	val := func() int64 {
		if chance(t, 1, 3) {
			return pick(t, int64(math.MinInt64), math.MaxInt64, -1, 0, 1<<31, 1<<32, 0xFFFFFFFF, -1<<31, 0x7FFFFFFF00000000, -4294967296)
		}
		return int64(uint64s.Draw(t, "v"))
	}
	for k := n(t, 1, 40); k > 0; k-- {
		op := BufOp{}
		switch weighted(t, 8, 4, 8, 6, 3, 1, 3) {
		case 0:
			op = BufOp{Op: "append", V: val()}
			size++
		case 1:
			c := n(t, 1, 2*page+2)
			if page > 64 {
				c = pick(t, 1, 2, page-1, page, page+1, 2*page, n(t, 1, 2*page))
			}
			op = BufOp{Op: "fill", I: c, V: val()}
			size += c
		case 2:
			op = BufOp{Op: "read", I: idx()}
		case 3:
			op = BufOp{Op: "write", I: idx(), V: val()}
		case 4:
			i := pick(t, n(t, 0, size), size/page*page, max(0, size-1), size, size+1, -1, 0)
			if bc.Kind == "object" {
				i = pick(t, n(t, 0, size/page+1), 1, size/page, -1)
				if i >= 0 && i*page < size {
					size = i * page
				}
			} else if i >= 0 && i < size {
				size = i
			}
			op = BufOp{Op: "size", I: i}
		case 5:
			op = BufOp{Op: "clear"}
			size = 0
		default:
			op = BufOp{Op: "export"}
		}
		bc.Ops = append(bc.Ops, op)
	}
	return bc
}

func checkBuf(c *Ctx, v any) error {
	bc := v.(*BufCase)
	b, err := newPaged(bc)
	e := bc.exp()
	if e > 40 {
		if err != nil {
			c.Label("page size refused")
			return nil
		}
	} else if err != nil {
		return fmt.Errorf("page size 2^%d refused: %v", e, err)
	}
	page := math.MaxInt64
	if e < 62 {
		page = 1 << e
	}
	var model []int64
	pages := func() int {
		if len(model) == 0 {
			return 0
		}
		return (len(model)-1)/page + 1
	}
	checkSize := func() error {
		want := len(model)
		if bc.Kind == "object" {
			want = pages()
		}
		if g := b.size(); g != want {
			return fmt.Errorf("GetSize is %d, want %d", g, want)
		}
		return nil
	}
	readAt := func(i int) error {
		c.Evals(1)
		got, err := b.read(i)
		u, l, e1, e2, hasHalves := b.halves(i)
		if i < 0 || i >= len(model) {
			if err == nil {
				return fmt.Errorf("reading index %d of %d entries gives %v and no error", i, len(model), got)
			}
			if hasHalves && (e1 == nil || e2 == nil) {
				return fmt.Errorf("reading the halves at index %d of %d entries gives no error", i, len(model))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("reading index %d of %d entries: %v", i, len(model), err)
		}
		if want := b.want(model[i]); !reflect.DeepEqual(got, want) {
			return fmt.Errorf("index %d reads %v, want %v", i, got, want)
		}
		if hasHalves {
			if e1 != nil || e2 != nil {
				return fmt.Errorf("reading the halves at index %d of %d entries: %v, %v", i, len(model), e1, e2)
			}
			if back := int64(u)<<32 | int64(uint32(l)); back != model[i] {
				return fmt.Errorf("halves at index %d give %#x, want %#x", i, uint64(back), uint64(model[i]))
			}
		}
		return nil
	}
	do := func(op BufOp) error {
		switch op.Op {
		case "append":
			if err := b.append(op.V); err != nil {
				return fmt.Errorf("append: %v", err)
			}
			model = append(model, op.V)
		case "fill":
			for k := 0; k < op.I && len(model) < 1<<20; k++ {
				v := op.V + int64(k)*0x100000001
				if err := b.append(v); err != nil {
					return fmt.Errorf("append to %d entries: %v", len(model), err)
				}
				model = append(model, v)
			}
			if len(model) > page {
				c.Label("several pages")
			}
		case "read":
			return readAt(op.I)
		case "write":
			err := b.write(op.I, op.V)
			if op.I < 0 || op.I >= len(model) {
				if err == nil {
					return fmt.Errorf("writing index %d of %d entries gives no error", op.I, len(model))
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("writing index %d of %d entries: %v", op.I, len(model), err)
			}
			model[op.I] = op.V
			return readAt(op.I)
		case "size":
			b.setSize(op.I)
			if op.I < 0 {
				break
			}
			if bc.Kind == "object" {
				if op.I < pages() {
					model = model[:op.I*page]
				}
			} else if op.I < len(model) {
				model = model[:op.I]
			}
			c.Label("size change")
		case "clear":
			b.clear()
			model = model[:0]
			c.Label("clear")
		case "export":
			out, scribble, err := b.export()
			if scribble == nil {
				return nil
			}
			c.Evals(1)
			if err != nil {
				return fmt.Errorf("export of %d entries: %v", len(model), err)
			}
			if len(out) != len(model) {
				return fmt.Errorf("export has %d entries, want %d", len(out), len(model))
			}
			for i := range out {
				if out[i] != b.want(model[i]) {
					return fmt.Errorf("export has %v at %d, want %v", out[i], i, b.want(model[i]))
				}
			}
			scribble() // the export is a copy
		}
		return nil
	}
	for k, op := range bc.Ops {
		if err := do(op); err != nil {
			return fmt.Errorf("operation %d (%+v): %w", k, op, err)
		}
		if err := checkSize(); err != nil {
			return fmt.Errorf("after operation %d (%+v): %w", k, op, err)
		}
	}
	if len(bc.Ops) >= 5 && len(model) > 0 {
		c.NonTrivial()
	}
	c.Label(bc.Kind)
	// at the end, everything is read
	for i := -2; i < len(model)+2; i++ {
		if err := readAt(i); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	for _, i := range []int{len(model) + 1024, math.MaxInt32, math.MaxInt64, math.MinInt64} {
		if err := readAt(i); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	return do(BufOp{Op: "export"})
}

// ---------------------------------------------------------------- C18 byte buffer

// ByteCase reads bytes and ranges of a byte buffer.
type ByteCase struct {
	Doc    Blob     `json:"doc"`
	At     []int    `json:"at,omitempty"`
	Ranges [][2]int `json:"ranges,omitempty"`
	Sizes  []int    `json:"sizes,omitempty"` // SetSize calls, between the reads
	Clear  bool     `json:"clear,omitempty"`
	Fill   int      `json:"fill,omitempty"` // this many bytes stand in front of Doc
	With   int      `json:"with,omitempty"` // ... all this byte, or different ones (256)
}

func (bc *ByteCase) bytes() []byte {
	out := make([]byte, 0, bc.Fill+len(bc.Doc))
	for i := 0; i < bc.Fill && i < 1<<27; i++ {
		b := byte(bc.With)
		if bc.With == 256 {
			b = byte(i*31 + i>>8 + 1)
		}
		out = append(out, b)
	}
	return append(out, bc.Doc...)
}

func genByteCase(t *rapid.T) any {
	bc := &ByteCase{Clear: chance(t, 1, 3)}
	k := n(t, 0, 40)
	bc.Doc = Blob{}
	if chance(t, 1, 20) {
		bc.Fill = pick(t, n(t, 0, 300), n(t, 0, 70000), 1<<n(t, 4, 17)-n(t, 0, k))
		bc.With = pick(t, 256, 256, 0, 255, '\n', n(t, 0, 255))
	}
	for i := 0; i < k; i++ {
		bc.Doc = append(bc.Doc, byte(pick(t, n(t, 0, 255), n(t, 0, 255), n(t, 0, 255), 0)))
	}
	k += bc.Fill
	big := func() int {
		return pick(t, math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1<<32, 1<<32+1, -1<<32, -1, math.MaxInt64-1)
	}
	for i := n(t, 0, 6); i > 0; i-- {
		bc.At = append(bc.At, pick(t, n(t, -2, k+2), n(t, 0, max(0, k-1)), big()))
	}
	for i := n(t, 1, 8); i > 0; i-- {
		o := pick(t, n(t, -2, k+2), n(t, 0, max(0, k-1)), n(t, 0, max(0, k-1)), n(t, 0, max(0, k-1)), big())
		l := pick(t, n(t, -2, k+2), n(t, 0, max(0, k-o)), n(t, 0, max(0, k-o)), k-o, k-o+1, k-o-1, big())
		bc.Ranges = append(bc.Ranges, [2]int{o, l})
	}
	for i := n(t, 0, 2); i > 0; i-- {
		bc.Sizes = append(bc.Sizes, pick(t, n(t, -1, 50), 0, big()))
	}
	return bc
}

func checkBytes(c *Ctx, v any) error {
	bc := v.(*ByteCase)
	orig := bc.bytes()
	doc := append([]byte{}, orig...)
	b, err := buffer.NewUniByteBuffer(doc)
	if err != nil {
		return fmt.Errorf("%d bytes refused: %v", len(doc), err)
	}
	if nb, err := buffer.NewUniByteBuffer(nil); err == nil || nb != nil {
		return fmt.Errorf("no bytes at all: buffer %v, error %v", nb, err)
	}
	look := func() error {
		if g := b.GetSize(); g != len(doc) {
			return fmt.Errorf("GetSize is %d for %d bytes", g, len(doc))
		}
		if g := b.GetBytes(); !bytes.Equal(g, orig) {
			return fmt.Errorf("GetBytes gives %d bytes, %q, want %d, %q", len(g), trunc(string(g), 200), len(orig), trunc(string(orig), 200))
		}
		for _, i := range bc.At {
			c.Evals(1)
			g, err := b.ByteAt(i)
			if i < 0 || i >= len(doc) {
				if err == nil {
					return fmt.Errorf("ByteAt(%d) of %d bytes gives %d and no error", i, len(doc), g)
				}
				continue
			}
			if err != nil || g != orig[i] {
				return fmt.Errorf("ByteAt(%d) of %d bytes gives %d, %v; want %d", i, len(doc), g, err, orig[i])
			}
		}
		for _, r := range bc.Ranges {
			o, l := r[0], r[1]
			c.Evals(1)
			g, err := b.GetByteSlice(o, l)
			inside := o >= 0 && l >= 0 && o <= len(doc) && l <= len(doc)-o
			if !inside {
				if err == nil {
					return fmt.Errorf("GetByteSlice(%d,%d) of %d bytes gives %q and no error", o, l, len(doc), trunc(string(g), 200))
				}
				if g != nil {
					return fmt.Errorf("GetByteSlice(%d,%d) of %d bytes gives an error and %q", o, l, len(doc), trunc(string(g), 200))
				}
				c.Label("range outside")
				continue
			}
			if l == 0 {
				if err == nil && len(g) != 0 {
					return fmt.Errorf("GetByteSlice(%d,0) gives %q", o, g)
				}
				continue // whether an empty range is refused is not claimed
			}
			c.Label("range inside")
			if err != nil && o+l == len(doc) && listed("C18", "last-byte") {
				c.Known("last-byte")
				continue
			}
			c.NonTrivial()
			if err != nil {
				return fmt.Errorf("GetByteSlice(%d,%d) of %d bytes: %v", o, l, len(doc), err)
			}
			if !bytes.Equal(g, orig[o:o+l]) {
				return fmt.Errorf("GetByteSlice(%d,%d) gives %q, want %q", o, l, trunc(string(g), 200), trunc(string(orig[o:o+l]), 200))
			}
		}
		return nil
	}
	if err := look(); err != nil {
		return err
	}
	for _, s := range bc.Sizes {
		b.SetSize(s)
		if err := look(); err != nil {
			return fmt.Errorf("after SetSize(%d): %w", s, err)
		}
	}
	if bc.Clear {
		b.Clear()
		if err := look(); err != nil {
			return fmt.Errorf("after Clear: %w", err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C19 readers

// ReadOp is one reader call.
type ReadOp struct {
	Op string `json:"op"` // char, long, at, skip, seq, set
	I  int    `json:"i,omitempty"`
	S  string `json:"s,omitempty"`
}

// ReadCase is a history of one reader.
type ReadCase struct {
	Ascii bool     `json:"ascii,omitempty"`
	Buf   Blob     `json:"buf"`
	Off   int      `json:"off"`
	End   int      `json:"end"`
	Ops   []ReadOp `json:"ops"`
	Pad   int      `json:"pad,omitempty"` // bytes in front of Buf, which offsets count
}

// decodeUTF8 decodes one character by the table of RFC 3629; width 0 is a fault.
func decodeUTF8(b []byte) (rune, int) {
	in := func(k int, lo, hi byte) bool { return len(b) > k && b[k] >= lo && b[k] <= hi }
	t := func(k int) rune { return rune(b[k] & 0x3F) }
	switch {
	case len(b) == 0:
	case b[0] < 0x80:
		return rune(b[0]), 1
	case b[0] >= 0xC2 && b[0] <= 0xDF:
		if in(1, 0x80, 0xBF) {
			return rune(b[0]&0x1F)<<6 | t(1), 2
		}
	case b[0] >= 0xE0 && b[0] <= 0xEF:
		lo, hi := byte(0x80), byte(0xBF)
		if b[0] == 0xE0 {
			lo = 0xA0
		}
		if b[0] == 0xED {
			hi = 0x9F
		}
		if in(1, lo, hi) && in(2, 0x80, 0xBF) {
			return rune(b[0]&0x0F)<<12 | t(1)<<6 | t(2), 3
		}
	case b[0] >= 0xF0 && b[0] <= 0xF4:
		lo, hi := byte(0x80), byte(0xBF)
		if b[0] == 0xF0 {
			lo = 0x90
		}
		if b[0] == 0xF4 {
			hi = 0x8F
		}
		if in(1, lo, hi) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) {
			return rune(b[0]&0x07)<<18 | t(1)<<12 | t(2)<<6 | t(3), 4
		}
	}
	return 0, 0
}

var readerBits = []string{"a", "<", "\r", "\n", "\r\n", "é", "ß", "日", "𐀀", "\U0010FFFF", "\uFFFD", "\uFFFE", "\x00", "\x7f", "\u0080",
	"\x80", "\xff", "\xc3", "\xe3\x81", "\xf0\x90\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xfe", "z", "&", "]"}

func genReadCase(t *rapid.T) any {
	rc := &ReadCase{Ascii: chance(t, 1, 3)}
	rc.Buf = Blob{}
	clean := chance(t, 1, 2)
	for k := n(t, 0, 14); k > 0; k-- {
		switch {
		case clean && rc.Ascii:
			rc.Buf = append(rc.Buf, byte(n(t, 0, 127)))
		case clean:
			rc.Buf = append(rc.Buf, readerBits[n(t, 0, 14)]...)
		default:
			rc.Buf = append(rc.Buf, readerBits[n(t, 0, len(readerBits)-1)]...)
		}
	}
	l := len(rc.Buf)
	rc.Off, rc.End = 0, l
	switch n(t, 0, 5) {
	case 0, 1:
		rc.Off = n(t, 0, l)
		rc.End = n(t, rc.Off, l)
	case 2:
		rc.End = n(t, 0, l)
	case 3:
		if chance(t, 1, 3) {
			rc.Off = pick(t, n(t, -2, l+2), -1, l, l+1, math.MinInt64, math.MaxInt64)
			rc.End = pick(t, n(t, -2, l+2), l, l+1, -1, math.MaxInt64, math.MinInt64)
		}
	}
	pos := func() int {
		lo, hi := max(0, min(rc.Off, l)), max(0, min(rc.End, l))
		return pick(t, n(t, lo-2, hi+2), n(t, lo, hi), n(t, lo, hi), rc.End-1, rc.End, -1, math.MaxInt32, math.MinInt32)
	}
	// a char that stands somewhere in the buffer, or another
	ch := func() int {
		if l > 0 && chance(t, 3, 4) {
			i := n(t, max(0, min(rc.Off, l-1)), l-1)
			for k := 0; k < 3 && i > 0 && rc.Buf[i]&0xC0 == 0x80; k++ {
				i--
			}
			r, w := decodeUTF8(rc.Buf[i:])
			if w > 0 {
				return int(r)
			}
			return int(rc.Buf[i])
		}
		return pick(t, 'a', '<', 0, 0xFFFD, 0xE9, 0x110000, math.MaxUint32, 0x100000061, n(t, 0, 0x10FFFF))
	}
	for k := n(t, 1, 16); k > 0; k-- {
		switch weighted(t, 8, 4, 3, 4, 3, 2) {
		case 0:
			rc.Ops = append(rc.Ops, ReadOp{Op: "char"})
		case 1:
			rc.Ops = append(rc.Ops, ReadOp{Op: "long", I: pos()})
		case 2:
			rc.Ops = append(rc.Ops, ReadOp{Op: "at", I: pos()})
		case 3:
			rc.Ops = append(rc.Ops, ReadOp{Op: "skip", I: ch()})
		case 4:
			s := ""
			if l > 0 && chance(t, 2, 3) {
				i := n(t, max(0, min(rc.Off, l-1)), l-1)
				s = string(rc.Buf[i:n(t, i, l)])
			} else {
				s = pick(t, "", "a", "az", "<a", "é日", "\uFFFD")
			}
			s = string([]rune(s))
			rc.Ops = append(rc.Ops, ReadOp{Op: "seq", S: s})
		default:
			rc.Ops = append(rc.Ops, ReadOp{Op: "set", I: pick(t, n(t, max(0, min(rc.Off, l)), max(0, min(rc.End, l))), rc.Off, rc.End, rc.End-1, rc.End+1, -1, math.MaxInt64, math.MinInt64, 0)})
		}
	}
	if chance(t, 1, 40) && rc.Off >= 0 && rc.End >= 0 && rc.End <= l {
		rc.Pad = pick(t, n(t, 1, 300), n(t, 1, 5000), 1<<n(t, 6, 16)-n(t, 0, l))
		if chance(t, 7, 8) {
			rc.Off += rc.Pad
		}
		rc.End += rc.Pad
		for i := range rc.Ops {
			if o := &rc.Ops[i]; (o.Op == "long" || o.Op == "at" || o.Op == "set") && o.I >= 0 && o.I <= l {
				o.I += rc.Pad
			}
		}
	}
	return rc
}

// refLong is the model of a positioned read: character and width; width 0 is a fault.
func refLong(b []byte, ascii bool) (rune, int) {
	if b[0] == '\r' {
		if len(b) > 1 && b[1] == '\n' {
			return '\n', 2
		}
		return '\n', 1
	}
	if ascii {
		if b[0] >= 0x80 {
			return 0, 0
		}
		return rune(b[0]), 1
	}
	return decodeUTF8(b)
}

func refChar(b []byte, ascii bool) (rune, int) {
	if ascii {
		if b[0] >= 0x80 {
			return 0, 0
		}
		return rune(b[0]), 1
	}
	return decodeUTF8(b)
}

func checkReader(c *Ctx, v any) error {
	rc := v.(*ReadCase)
	whole := append(bytes.Repeat([]byte("p"), max(0, min(rc.Pad, 1<<24))), rc.Buf...)
	buf := append([]byte{}, whole...)
	var r reader.Reader
	var err error
	if rc.Ascii {
		var x *reader.AsciiReader
		x, err = reader.NewAsciiReader(buf, rc.Off, rc.End)
		if x != nil {
			r = x
		}
	} else {
		var x *reader.Utf8Reader
		x, err = reader.NewUtf8Reader(buf, rc.Off, rc.End)
		if x != nil {
			r = x
		}
	}
	if (r == nil) == (err == nil) {
		return fmt.Errorf("constructor(%d bytes, %d, %d): reader %v, error %v", len(buf), rc.Off, rc.End, r, err)
	}
	if rc.Off < 0 || rc.End < 0 || rc.End > len(buf) {
		c.Label("window outside the buffer")
		if err == nil {
			return fmt.Errorf("window [%d,%d) of %d bytes is accepted", rc.Off, rc.End, len(buf))
		}
		return nil
	}
	if err != nil {
		if rc.Off > rc.End {
			return nil
		}
		return fmt.Errorf("window [%d,%d) of %d bytes is refused: %v", rc.Off, rc.End, len(buf), err)
	}
	pos := rc.Off
	if rc.Off <= rc.End && len(rc.Ops) >= 3 && rc.End-rc.Off >= 3 {
		c.NonTrivial()
	}
	steps := 0
	one := func() error {
		c.Evals(1)
		got, err := r.GetChar()
		if pos < 0 || pos >= rc.End {
			if err == nil {
				return fmt.Errorf("GetChar at %d, behind the end %d, gives U+%04X", pos, rc.End, got)
			}
			if errKind(err) != "eof" {
				return fmt.Errorf("GetChar at %d, behind the end %d: %v is no end-of-input error", pos, rc.End, err)
			}
			if r.GetOffset() != pos {
				return fmt.Errorf("GetChar behind the end moves from %d to %d", pos, r.GetOffset())
			}
			return nil
		}
		if pos < rc.Off { // the caller left the window on its own
			pos = r.GetOffset()
			return nil
		}
		want, w := refChar(buf[pos:rc.End], rc.Ascii)
		if w == 0 {
			c.Label("encoding fault")
			if err == nil {
				return fmt.Errorf("GetChar at %d gives U+%04X for an encoding fault", pos, got)
			}
			if k := r.GetOffset(); k < pos || k > rc.End {
				return fmt.Errorf("GetChar on an encoding fault moves from %d to %d", pos, k)
			}
			pos = r.GetOffset()
			return nil
		}
		if err != nil || got != uint32(want) {
			return fmt.Errorf("GetChar at %d gives U+%04X, %v; want U+%04X", pos, got, err, want)
		}
		pos += w
		if r.GetOffset() != pos {
			return fmt.Errorf("GetChar moves to %d, want %d", r.GetOffset(), pos)
		}
		return nil
	}
	for k, op := range rc.Ops {
		steps++
		fail := func(format string, a ...any) error {
			return fmt.Errorf("operation %d (%+v) at %d: %s", k, op, pos, fmt.Sprintf(format, a...))
		}
		inWin := pos >= rc.Off && pos < rc.End
		switch op.Op {
		case "char":
			if err := one(); err != nil {
				return fmt.Errorf("operation %d: %w", k, err)
			}
		case "long":
			c.Evals(1)
			if op.I < math.MinInt32 || op.I > math.MaxInt32 {
				continue
			}
			got, err := r.GetLongCharAt(int32(op.I))
			if op.I < 0 || op.I >= rc.End {
				if err == nil {
					return fail("gives %#x behind the end %d", got, rc.End)
				}
				continue
			}
			if op.I < rc.Off {
				continue
			}
			want, w := refLong(buf[op.I:rc.End], rc.Ascii)
			if w == 0 {
				if err == nil && !rc.Ascii {
					return fail("gives %#x for an encoding fault", got)
				}
				// an ASCII reader may also pass the byte on, but no other value
				if err == nil && got != 1<<32|uint64(buf[op.I]) {
					return fail("gives %#x for the byte %#x", got, buf[op.I])
				}
				continue
			}
			if err != nil || got != uint64(w)<<32|uint64(want) {
				return fail("gives %#x, %v; want character U+%04X of width %d", got, err, want, w)
			}
		case "at":
			c.Evals(1)
			if op.I < math.MinInt32 || op.I > math.MaxInt32 {
				continue
			}
			got, err := r.GetCharAt(int32(op.I))
			if op.I < 0 || op.I >= rc.End {
				if err == nil {
					return fail("gives %#x behind the end %d", got, rc.End)
				}
				continue
			}
			if op.I < rc.Off {
				continue
			}
			if err != nil || got != uint32(buf[op.I]) {
				return fail("gives %#x, %v; want the byte %#x", got, err, buf[op.I])
			}
		case "skip":
			c.Evals(1)
			got := r.SkipChar(uint32(op.I))
			if !inWin {
				if pos >= rc.Off || pos < 0 {
					if got || r.GetOffset() != pos {
						return fail("outside the window skips to %d", r.GetOffset())
					}
				}
				pos = r.GetOffset()
				continue
			}
			want, w := refChar(buf[pos:rc.End], rc.Ascii)
			if w == 0 {
				if rc.Ascii {
					pos = r.GetOffset()
					continue
				}
				if got || r.GetOffset() != pos {
					return fail("skips an encoding fault")
				}
				continue
			}
			if uint32(want) == uint32(op.I) {
				c.Label("skip hits")
				pos += w
			}
			if got != (uint32(want) == uint32(op.I)) || r.GetOffset() != pos {
				return fail("answers %v at offset %d; the next character is U+%04X, the right offset %d", got, r.GetOffset(), want, pos)
			}
		case "seq":
			c.Evals(1)
			got := r.SkipCharSeq(op.S)
			if !inWin {
				if (pos >= rc.Off || pos < 0) && (got != (op.S == "") || r.GetOffset() != pos) {
					return fail("outside the window answers %v, offset %d", got, r.GetOffset())
				}
				pos = r.GetOffset()
				continue
			}
			same, q, ok := true, pos, true
			for _, x := range op.S {
				if q >= rc.End {
					same = false
					break
				}
				y, w := refChar(buf[q:rc.End], rc.Ascii)
				if w == 0 {
					ok = !rc.Ascii
					same = false
					break
				}
				if x != y {
					same = false
					break
				}
				q += w
			}
			if !ok {
				pos = r.GetOffset()
				continue
			}
			if got != same {
				return fail("answers %v, want %v", got, same)
			}
			if k := r.GetOffset(); same && k != q || !same && (k < pos || k > q) {
				return fail("moves to %d; the matching part ends at %d", k, q)
			}
			pos = r.GetOffset()
			if same && op.S != "" {
				c.Label("sequence hits")
			}
		case "set":
			r.SetOffset(op.I)
			pos = op.I
			if r.GetOffset() != pos {
				return fail("GetOffset gives %d", r.GetOffset())
			}
		}
		if r.GetOffset() != pos {
			return fail("offset is %d, want %d", r.GetOffset(), pos)
		}
	}
	// read to the end, then twice more
	if pos >= rc.Off && pos <= rc.End {
		for k := 0; k < rc.End-rc.Off+3; k++ {
			if err := one(); err != nil {
				return fmt.Errorf("reading on: %w", err)
			}
		}
	}
	if !bytes.Equal(buf, whole) {
		return fmt.Errorf("the reader changed its bytes")
	}
	return nil
}

// ---------------------------------------------------------------- C20 character classes

// CharCase is a range of code values.
type CharCase struct {
	Lo   uint32 `json:"lo"`
	Hi   uint32 `json:"hi"`
	Step uint32 `json:"step,omitempty"`

	// Mixed: between two questions about a value, questions about values with which it
	// shares bits, the five tests in changing order, all to one object.
	Mixed bool `json:"mixed,omitempty"`
}

func inRanges(ch uint32, rs ...uint32) bool {
	for k := 0; k < len(rs); k += 2 {
		if ch >= rs[k] && ch <= rs[k+1] {
			return true
		}
	}
	return false
}

// mixedWith is a value, values with which it shares bits, and the value again and again.
func mixedWith(ch uint32) []uint32 {
	out := []uint32{ch}
	for _, q := range []uint32{ch & 0xFFFF, ch ^ 0x10000, ch & 0xFF, ch & 0x7F, ch ^ 0x80, ch ^ 0x20, ch ^ 0x100, ch ^ 0x800, ch ^ 0x1000, ch ^ 0x8000, ch & 0xFFF,
		ch&0xFF00 | '<', ch&0xFFFF00 | 'a', ch + 0x100000, ch ^ 0x80000000, ch ^ 0x1000000, ch << 8, ch >> 8, ch << 16, ch + 1, ch - 1, ch*31 + 7, ^ch} {
		out = append(out, q, ch)
	}
	return out
}

// classesOf is what the five tests must say.
func classesOf(ch uint32) [5]bool {
	valid := inRanges(ch, 1, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x10FFFF)
	return [5]bool{ch <= 0x10FFFF && refxml.IsNameStart(rune(ch)), ch <= 0x10FFFF && refxml.IsName(rune(ch)), ch == 0x20 || ch == 9 || ch == 10 || ch == 13,
		valid, valid && ch != '<' && ch != '&' && ch != ']'}
}

func checkChars(c *Ctx, v any) error {
	cc := v.(*CharCase)
	x := common.NewXmlChar()
	step := uint64(max(1, cc.Step))
	cnt := 0
	if cc.Mixed {
		tests := [5]func(uint32) bool{x.IsNameStartChar, x.IsNameChar, x.IsSpaceChar, x.IsValidChar, x.IsContentChar}
		names := [5]string{"name-start", "name", "space", "valid", "content"}
		for k := uint64(cc.Lo); k <= uint64(cc.Hi); k += step {
			ch := uint32(k)
			for i, q := range mixedWith(ch) {
				cnt++
				want := classesOf(q)
				for j := range tests {
					j = (j*(1+i%4) + i + int(ch)) % 5
					if got := tests[j](q); got != want[j] {
						return &caseErr{&CharCase{Lo: ch, Hi: ch, Mixed: true}, fmt.Errorf("%s test of %#x, asked among others near %#x: %v, want %v", names[j], q, ch, got, want[j])}
					}
				}
			}
		}
		c.Evals(cnt)
		c.NonTrivial()
		return nil
	}
	for k := uint64(cc.Lo); k <= uint64(cc.Hi); k += step {
		ch := uint32(k)
		cnt++
		start := ch <= 0x10FFFF && refxml.IsNameStart(rune(ch))
		name := ch <= 0x10FFFF && refxml.IsName(rune(ch))
		space := ch == 0x20 || ch == 9 || ch == 10 || ch == 13
		valid := inRanges(ch, 1, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x10FFFF)
		content := valid && ch != '<' && ch != '&' && ch != ']'
		if x.IsNameStartChar(ch) != start || x.IsNameChar(ch) != name || x.IsSpaceChar(ch) != space ||
			x.IsValidChar(ch) != valid || x.IsContentChar(ch) != content {
			return &caseErr{&CharCase{Lo: ch, Hi: ch}, fmt.Errorf("%#x: name-start %v name %v space %v valid %v content %v; want %v %v %v %v %v", ch,
				x.IsNameStartChar(ch), x.IsNameChar(ch), x.IsSpaceChar(ch), x.IsValidChar(ch), x.IsContentChar(ch), start, name, space, valid, content)}
		}
	}
	c.Evals(cnt)
	c.NonTrivial()
	return nil
}

func init() {
	register(&Prop{
		ID: "C17",
		Rule: "random histories of append, fill, read, write, size change, clear and export on the three buffers with every kind of page size, against a plain slice; at the end every index is read; " +
			"non-trivial: at least five operations and a non-empty buffer at the end",
		New: func() any { return &BufCase{} }, Gen: genBufCase, Check: checkBuf,
		Quick: 200000, Thorough: 20000000,
		Assume: []string{"the object buffer's GetSize and SetSize count pages, as the existing tests pin"},
	})
	register(&Prop{
		ID: "C18",
		Rule: "random byte strings with indexes and ranges inside, at and over the edges and with extreme values, before and after SetSize and Clear, against slicing; " +
			"non-trivial: a non-empty range inside the document; ranges that end with the last byte are refused: the listed finding",
		New: func() any { return &ByteCase{} }, Gen: genByteCase, Check: checkBytes,
		Quick: 1000000, Thorough: 60000000,
		Fixed: func(string) []any {
			var out []any
			for l := 0; l <= 12; l++ {
				bc := &ByteCase{Doc: Blob{}, Clear: true, Sizes: []int{0}}
				for i := 0; i < l; i++ {
					bc.Doc = append(bc.Doc, byte(i*37+1))
				}
				for o := -2; o <= l+2; o++ {
					bc.At = append(bc.At, o)
					for k := -2; k <= l+3; k++ {
						bc.Ranges = append(bc.Ranges, [2]int{o, k})
					}
				}
				out = append(out, bc)
			}
			// large ones, with plain and with varied contents
			for p := 4; p <= 20; p++ {
				for d := -1; d <= 1; d++ {
					for _, with := range []int{256, 0, 255, ' ', '\n'} {
						l := 1<<p + d
						bc := &ByteCase{Doc: Blob{}, Fill: l, With: with, Clear: d == 0, At: []int{0, l - 1, l, l / 2, -1}, Sizes: []int{l / 2}}
						for _, e := range []int{0, 1, l / 3, l / 2, l - 2} {
							bc.Ranges = append(bc.Ranges, [2]int{e, 1}, [2]int{e, l - e - 1}, [2]int{e, l - e}, [2]int{e, l - e + 1}, [2]int{e, l / 2})
						}
						out = append(out, bc)
					}
				}
			}
			return out
		},
	})
	register(&Prop{
		ID: "C19",
		Rule: "random byte strings (valid, with faults of every kind), windows and call histories of the UTF-8 and ASCII readers, against an own decoder written from RFC 3629, then read to the end; " +
			"non-trivial: a window of at least three bytes and at least three calls",
		New: func() any { return &ReadCase{} }, Gen: genReadCase, Check: checkReader,
		Quick: 1000000, Thorough: 60000000,
		Fixed: func(tier string) []any {
			// every byte string of two, thorough three, bytes from the edges of the UTF-8 table
			bs := []byte{0x00, 'a', '\r', '\n', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF}
			var out []any
			for _, a := range bs {
				for _, b := range bs {
					for _, d := range bs {
						if tier != "thorough" && (a < 0x80 && a != '\r') {
							continue
						}
						bb := Blob{a, b, d, 0x80, 'z'}
						for _, asc := range []bool{false, true} {
							for end := 1; end <= 5; end++ {
								out = append(out, &ReadCase{Ascii: asc, Buf: bb, End: end, Ops: []ReadOp{{Op: "long", I: 0}, {Op: "long", I: 1}, {Op: "at", I: 0}}})
							}
						}
					}
				}
			}
			return out
		},
	})
	register(&Prop{
		ID: "C20",
		Rule: "the five tests on every value from 0 to 0x21FFFF, on every value near a class boundary with any upper bits, and on drawn ranges of 32-bit values (thorough: on all 2^32 values), against the ranges of the specifications; " +
			"a case is a range of values; every case is non-trivial",
		New: func() any { return &CharCase{} }, Check: checkChars,
		Gen: func(t *rapid.T) any {
			lo := uint32(uint64s.Draw(t, "lo"))
			hi := lo + 199
			if hi < lo {
				hi = math.MaxUint32
			}
			return &CharCase{Lo: lo, Hi: hi, Mixed: chance(t, 1, 2)}
		},
		Fixed: func(tier string) []any {
			var out []any
			if tier == "thorough" {
				for k := uint64(0); k < 1<<32; k += 1 << 20 {
					out = append(out, &CharCase{Lo: uint32(k), Hi: uint32(k + 1<<20 - 1)})
				}
				for k := uint32(0); k < 0x220000; k += 0x2000 {
					out = append(out, &CharCase{Lo: k, Hi: k + 0x1FFF, Mixed: true})
				}
				return out
			}
			for k := uint32(0); k < 0x220000; k += 0x4000 {
				out = append(out, &CharCase{Lo: k, Hi: k + 0x3FFF})
			}
			for k := uint32(0); k < 0x220000; k += 0x2000 {
				st := uint32(17)
				if k < 0x4000 || k == 0xC000 || k == 0xE000 {
					st = 1
				}
				out = append(out, &CharCase{Lo: k, Hi: k + 0x1FFF, Mixed: true, Step: st})
			}
			for s := uint32(8); s < 32; s++ { // any single bit, and all bits above one
				for _, up := range []uint32{1 << s, ^uint32(0) << s} {
					for _, bd := range []uint32{0, 9, 0x20, '&', '-', '0', ':', '<', 'A', ']', '_', 'a', 'z', 0xB7, 0xC0, 0xD7, 0xF7, 0x300, 0x37E, 0x2000, 0x203F, 0x2070, 0x218F, 0x2C00, 0x3001, 0xD7FF, 0xE000, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD, 0xFFFF, 0x10000, 0xEFFFF, 0x10FFFF} {
						lo := (up | bd) - 4
						hi := lo + 8
						if hi < lo {
							hi = math.MaxUint32
						}
						out = append(out, &CharCase{Lo: lo, Hi: hi})
					}
				}
			}
			out = append(out, &CharCase{Lo: math.MaxUint32 - 100000, Hi: math.MaxUint32}, &CharCase{Lo: 0, Hi: math.MaxUint32, Step: 9973})
			return out
		},
		Exhaustive: func(tier string) bool { return tier == "thorough" },
		Quick:      2000, Thorough: 2000,
	})
}
