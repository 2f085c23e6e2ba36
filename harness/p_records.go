package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// RecCase is a navigation object made over a list of token records.
type RecCase struct {
	Recs  []uint64    `json:"recs"`
	L     [3][]uint64 `json:"l,omitempty"` // location cache entries
	Doc   Blob        `json:"doc"`
	NS    bool        `json:"ns,omitempty"`
	Exp   int         `json:"exp,omitempty"` // page size of the record buffer
	Enc   int         `json:"enc,omitempty"`
	Root  int32       `json:"root,omitempty"`
	Depth int32       `json:"depth,omitempty"`
	Win   [2]int32    `json:"win,omitempty"` // offset and length given to the constructor
	Moves []int       `json:"moves,omitempty"`
	At    []int       `json:"at,omitempty"`
	Rng   [][2]int32  `json:"rng,omitempty"`
	Pad   int         `json:"pad,omitempty"`  // that many records in front
	Refs  *RefEnum    `json:"refs,omitempty"` // instead: many documents of references, whole and damaged
}

// RefEnum is a part of the enumeration of references in bytes that no parser has seen:
// the sequences of refToks that start with Prefix and have Rest further tokens.
type RefEnum struct {
	Prefix []int `json:"prefix"`
	Rest   int   `json:"rest"`
	Enc    int   `json:"enc"`
}

var refToks = []string{"&", ";", "#", "x", "0", "1", "a", "l", "t", "m", "p;", "pos", "quot", "D800", "110000", "FFFFFFFF", "\xc3", "\r", "g", "X", "9", "f"}

func (e *RefEnum) each(f func(doc []byte) error) error {
	var base []byte
	for _, k := range e.Prefix {
		base = append(base, refToks[k]...)
	}
	var rec func(b []byte, rest int) error
	rec = func(b []byte, rest int) error {
		if rest == 0 {
			return f(append([]byte(nil), b...))
		}
		for _, tk := range refToks {
			if err := rec(append(b[:len(b):len(b)], tk...), rest-1); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(base, e.Rest)
}

func refParts(tier string) []any {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	var out []any
	for k := range refToks {
		for l := 0; l < depth; l++ {
			for _, first := range []int{0, 7} {
				out = append(out, &RecCase{Refs: &RefEnum{[]int{first, k}, l, []int{2, 0}[(k+l)%2]}})
			}
		}
		for j := range refToks {
			out = append(out, &RecCase{Refs: &RefEnum{[]int{0, 2, k, j}, depth - 2, []int{0, 2}[(k+j)%2]}})
		}
	}
	return out
}

// legalRef: a reference, resolved to s, denotes a legal character.
func legalRef(ref, s string) bool {
	if !strings.HasPrefix(ref, "#") {
		return true
	}
	base, digits := 10, ref[1:]
	if strings.HasPrefix(digits, "x") {
		base, digits = 16, digits[1:]
	}
	v, err := strconv.ParseUint(strings.TrimLeft(digits, "0"), base, 32)
	return err == nil && (v >= 1 && v < 0xD800 || v > 0xDFFF && v < 0xFFFE || v > 0xFFFF && v < 0x110000)
}

// readRange is what reading the bytes [o,e) with references resolved gives: the string,
// with a CR LF pair as one line feed or (the listed finding) as two; bad if a reference
// in it denotes no character; cut if one reaches over the end of the range.
func readRange(doc []byte, o, e int) (one, two string, bad, cut bool) {
	var a, b []byte
	for i := o; i < e; {
		switch doc[i] {
		case '&':
			j := bytes.IndexByte(doc[i:], ';')
			if j < 0 {
				return "", "", true, false
			}
			s, ok := refxml.Resolve(doc[i : i+j+1])
			if !ok || !legalRef(string(doc[i+1:i+j]), s) {
				return "", "", true, false
			}
			cut = cut || i+j+1 > e
			a, b = append(a, s...), append(b, s...)
			i += j + 1
		case '\r':
			a, b = append(a, '\n'), append(b, '\n')
			i++
			if i < len(doc) && doc[i] == '\n' {
				if i < e {
					b = append(b, '\n')
				} else {
					cut = true
				}
				i++
			}
		default:
			a, b = append(a, doc[i]), append(b, doc[i])
			i++
		}
	}
	return string(a), string(b), false, cut
}

func longBufferOf(exp int, vs []uint64) *buffer.FastLongBuffer {
	b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(exp))
	if err != nil {
		panic(harnessPanic(err.Error()))
	}
	for _, v := range vs {
		if err := b.Append(int64(v)); err != nil {
			panic(harnessPanic(err.Error()))
		}
	}
	return b
}

func (rc *RecCase) nav() (*navigation.VtdNav, error) {
	return navigation.NewVtdNav(rc.Root, rc.Win[0], rc.Win[1], rc.Depth, common.FormatEncoding(rc.Enc), rc.NS, rc.Doc,
		longBufferOf(rc.Exp, rc.Recs), longBufferOf(rc.Exp, rc.L[0]), longBufferOf(rc.Exp, rc.L[1]), longBufferOf(rc.Exp, rc.L[2]))
}

// mkRec packs a record: 4 bits kind, 8 bits depth, 20 bits length, 2 bits, of which the
// second belongs to the offset of a document without namespaces, 30 bits offset.
func mkRec(kind, depth, length, spare, off int) uint64 {
	return uint64(kind&15)<<60 | uint64(depth&255)<<52 | uint64(length&0xFFFFF)<<32 | uint64(spare&3)<<30 | uint64(off&0x3FFFFFFF)
}

func genRecs(t *rapid.T, size int) []uint64 {
	var out []uint64
	kind, depth, end := 0, 0, 0
	for k := n(t, 1, 24); k > 0; k-- {
		length := pick(t, n(t, 0, 8), n(t, 0, size), 0, n(t, 0, 1<<20-1), 1<<20-1, 1<<11-1, 1<<11, 1<<9)
		if chance(t, 1, 2) && len(out) > 0 { // like the previous one, or nearly
			o := end
			d, kd := depth, kind
			switch n(t, 0, 9) {
			case 0:
				o += pick(t, -1, 1, 1<<29)
			case 1:
				d = (d + pick(t, 1, 255, 16)) & 255
			case 2:
				kd = (kd + pick(t, 1, 15, 8)) & 15
			}
			kind, depth = kd, d
			out = append(out, mkRec(kd, d, length, n(t, 0, 3), o))
			end = o + length
			continue
		}
		kind = n(t, 0, 15)
		if chance(t, 1, 3) {
			kind = pick(t, 5, 6, 11)
		}
		depth = pick(t, n(t, 0, 4), n(t, 0, 255), 255, 254, 128)
		off := pick(t, n(t, 0, max(1, size)), n(t, 0, 1<<30-1), 1<<30-1, 1<<29)
		out = append(out, mkRec(kind, depth, length, pick(t, 0, 0, n(t, 0, 3)), off))
		end = off + length
	}
	return out
}

// wantRec is the model of the record fields.
func wantRec(recs []uint64, i int, ns bool) Rec {
	limit := uint64(1 << 31)
	if ns {
		limit = 1 << 30
	}
	f := func(v uint64) (kind, depth, length, off int64) {
		return int64(v / (1 << 60)), int64(v / (1 << 52) % 256), int64(v / (1 << 32) % (1 << 20)), int64(v % limit)
	}
	kind, depth, length, off := f(recs[i])
	switch kind {
	case 0, 2, 3: // start tag, attribute name, namespace declaration
		qn, pre := length%2048, length/2048
		length = qn
		if ns {
			length = pre*65536 + qn
		}
	case 5, 6, 11: // text, comment, CDATA: records that follow on belong to the same value
		end := off + length
		for k := i + 1; k < len(recs); k++ {
			k2, d2, l2, o2 := f(recs[k])
			if k2 != kind || d2 != depth || o2 != end {
				break
			}
			end += l2
		}
		length = end - off
	}
	if depth == 255 {
		depth = -1
	}
	return Rec{int32(kind), int32(off), int32(length), int32(depth)}
}

var badIndexes = []int{-1, math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1 << 32, -1 << 32, 1<<32 + 1, -1024}

func checkRecords(c *Ctx, v any) error {
	rc := v.(*RecCase)
	if rc.Pad > 0 && rc.Pad <= 1<<20 {
		// the records behind many others
		one := *rc
		one.Recs = nil
		for i := 0; i < rc.Pad; i++ {
			one.Recs = append(one.Recs, mkRec(i*7&15, i*11&255, i*13&0xFFFFF, i&3, i*17))
		}
		one.Recs = append(one.Recs, rc.Recs...)
		rc = &one
		c.Label("many records")
	}
	if len(rc.Doc) == 0 {
		rc.Doc = Blob("<a/>")
	}
	nav, err := rc.nav()
	if err != nil {
		return fmt.Errorf("constructor: %v", err)
	}
	if g := nav.GetVtdBufferSize(); g != len(rc.Recs) {
		return fmt.Errorf("GetVtdBufferSize is %d, want %d", g, len(rc.Recs))
	}
	if g := nav.GetEncoding(); g != common.FormatEncoding(rc.Enc) {
		return fmt.Errorf("GetEncoding is %v, want %d", g, rc.Enc)
	}
	if len(rc.Recs) >= 3 {
		c.NonTrivial()
	}
	for i := range rc.Recs {
		c.Evals(1)
		got, err := record(nav, i)
		if err != nil {
			return fmt.Errorf("record %d of %d: %w", i, len(rc.Recs), err)
		}
		want := wantRec(rc.Recs, i, rc.NS)
		if got != want {
			return fmt.Errorf("record %d (%#016x, ns=%v) reads %+v, want %+v (kind, offset, length, depth)", i, rc.Recs[i], rc.NS, got, want)
		}
		if k := want.Type; (k == 5 || k == 6 || k == 11) && want.Len != int32(rc.Recs[i]>>32&0xFFFFF) {
			c.Label("joined text value")
		}
	}
	return badIdx(nav, len(rc.Recs))
}

// badIdx reads indexes outside the list.
func badIdx(nav *navigation.VtdNav, size int) error {
	for _, i := range append([]int{size, size + 1, size + 1024, -size}, badIndexes...) {
		if i >= 0 && i < size {
			continue
		}
		for name, f := range map[string]func(int) (int32, error){"GetTokenType": nav.GetTokenType, "GetTokenOffset": nav.GetTokenOffset,
			"GetTokenLength": nav.GetTokenLength, "GetTokenDepth": nav.GetTokenDepth} {
			if g, err := f(i); err == nil {
				return fmt.Errorf("%s(%d) of %d records gives %d and no error", name, i, size, g)
			}
		}
		for name, f := range map[string]func(int) (string, error){"ToStringAtIndex": nav.ToStringAtIndex, "ToRawStringAtIndex": nav.ToRawStringAtIndex} {
			if g, err := f(i); err == nil || g != "" {
				return fmt.Errorf("%s(%d) of %d records gives %q, error %v", name, i, size, trunc(g, 100), err)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C22

func genDamaged(t *rapid.T) any {
	rc := &RecCase{NS: chance(t, 1, 2), Exp: n(t, 0, 6), Enc: pick(t, 0, 2, 2, 2), Root: int32(pick(t, 0, 1, 1, 2, n(t, -2, 30))), Depth: int32(pick(t, 0, 1, 2, 3, 4, 5, 8, 255))}
	if chance(t, 1, 12) {
		rc.Enc = n(t, -1, 40)
	}
	if chance(t, 1, 12) {
		rc.Root = pick(t, int32(math.MaxInt32), math.MinInt32, 100000, -1)
	}
	if chance(t, 1, 12) {
		rc.Depth = pick(t, int32(-1), math.MinInt32, 256, 1000)
	}
	// a parsed document, damaged, or random records altogether
	if chance(t, 2, 3) {
		doc := genTree(t)
		if chance(t, 1, 3) {
			doc = genDoc(t, DocCfg{NS: true, Budget: 15})
		}
		rc.Doc = doc
		p, err := parseParts(doc, Opts{NS: rc.NS})
		if err == nil {
			rc.Recs, rc.L, rc.Root, rc.Depth = p.recs, p.l, p.root, p.depth
			if len(rc.Recs) > 80 {
				rc.Recs = rc.Recs[:80]
			}
			for k := range rc.L {
				if len(rc.L[k]) > 40 {
					rc.L[k] = rc.L[k][:40]
				}
			}
			damage := func(xs []uint64) []uint64 {
				if len(xs) == 0 {
					if chance(t, 1, 4) {
						return []uint64{uint64s.Draw(t, "x")}
					}
					return xs
				}
				i := n(t, 0, len(xs)-1)
				out := append([]uint64(nil), xs...)
				switch n(t, 0, 6) {
				case 0:
					out[i] ^= 1 << n(t, 0, 63)
				case 1:
					out[i] = uint64s.Draw(t, "x")
				case 2:
					out = append(out[:i], out[i+1:]...)
				case 3:
					out = append(out, out[i])
				case 4:
					out[i] = out[i]&^(0xFF<<52) | uint64(n(t, 0, 255))<<52
				case 5:
					j := n(t, 0, len(out)-1)
					out[i], out[j] = out[j], out[i]
				case 6:
					out[i] = uint64(n(t, 0, len(rc.Recs)+2))<<32 | uint64(pick(t, 0, 1, n(t, 0, 10), 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000))
				}
				return out
			}
			for k := n(t, 0, 4); k > 0; k-- {
				switch n(t, 0, 4) {
				case 0, 1:
					rc.Recs = damage(rc.Recs)
				default:
					j := n(t, 0, 2)
					rc.L[j] = damage(rc.L[j])
				}
			}
			if chance(t, 1, 6) {
				rc.Depth = int32(n(t, 0, 6))
			}
			if chance(t, 1, 6) {
				rc.Root = int32(n(t, -1, len(rc.Recs)+2))
			}
		}
	}
	if rc.Recs == nil {
		rc.Doc = Blob(pick(t, "<a/>", "<a>&amp;&#65;</a>", "x", "&", "&#", "&#x10FFFF;", "a\r\nb", "\xff\xfe", "é<", "&lt", "<a b='1'>t</a>", "\r"))
		if chance(t, 1, 20) {
			rc.Recs = []uint64{}
		} else {
			rc.Recs = genRecs(t, len(rc.Doc))
		}
		for j := range rc.L {
			for k := n(t, 0, 6); k > 0; k-- {
				if chance(t, 1, 4) {
					rc.L[j] = append(rc.L[j], uint64s.Draw(t, "x"))
				} else {
					rc.L[j] = append(rc.L[j], uint64(n(t, 0, len(rc.Recs)+1))<<32|uint64(pick(t, n(t, 0, 6), 0xFFFFFFFF)))
				}
			}
		}
	}
	rc.Win = [2]int32{0, int32(len(rc.Doc))}
	if chance(t, 1, 10) {
		rc.Win = [2]int32{pick(t, 0, 1, -1, int32(math.MaxInt32)), pick(t, int32(0), 1, -1, math.MaxInt32)}
	}
	for k := n(t, 1, 40); k > 0; k-- {
		rc.Moves = append(rc.Moves, pick(t, 0, 1, 2, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6, 7, -1, 1000))
	}
	for k := n(t, 0, 4); k > 0; k-- {
		rc.Rng = append(rc.Rng, genRange(t, len(rc.Doc)))
	}
	return rc
}

type navParts struct {
	recs  []uint64
	l     [3][]uint64
	root  int32
	depth int32
}

func (rc *RecCase) plainEnc() bool { return rc.Enc == 0 || rc.Enc == 2 }

func checkDamaged(c *Ctx, v any) error {
	rc := v.(*RecCase)
	if rc.Refs != nil {
		c.Label("enumerated references")
		sub := &Ctx{corpus: true}
		err := rc.Refs.each(func(doc []byte) error {
			one := &RecCase{Doc: doc, Enc: rc.Refs.Enc, Exp: 4, Rng: [][2]int32{{0, int32(len(doc))}}, Recs: []uint64{mkRec(4+len(doc)%2, 0, len(doc), 0, 0)}}
			if len(doc) > 3 {
				one.Rng = append(one.Rng, [2]int32{0, int32(len(doc) - 1)}, [2]int32{0, 1})
			}
			sub.labels = sub.labels[:0]
			if err := guard(func() error { return checkDamaged(sub, one) }); err != nil {
				return &caseErr{one, err}
			}
			return nil
		})
		c.Evals(sub.evals)
		c.NonTrivial()
		return err
	}
	if rc.Doc == nil {
		rc.Doc = Blob{}
	}
	orig := append([]byte(nil), rc.Doc...)
	nav, err := rc.nav()
	if err != nil {
		if nav != nil {
			return fmt.Errorf("constructor gives an error and an object")
		}
		c.Label("constructor refuses")
		return nil
	}
	if rc.Depth < 0 {
		c.Label("negative depth accepted")
	}
	if len(rc.Recs) >= 2 && len(rc.Moves) >= 2 {
		c.NonTrivial()
	}
	// strings never hold bytes that are not part of the document
	str := func(what string, o, l int64, got string, err error, raw bool) error {
		c.Evals(1)
		if err != nil {
			if got != "" {
				return fmt.Errorf("%s gives an error and %q", what, trunc(got, 200))
			}
			if o >= 0 && l > 0 && o+l <= int64(len(orig)) && rc.plainEnc() {
				// inside the document: nothing but a bad or cut-off reference is a reason
				if raw {
					return fmt.Errorf("%s covers [%d,%d) of %d bytes and gives %v", what, o, o+l, len(orig), err)
				}
				if _, _, bad, cut := readRange(orig, int(o), int(o+l)); !bad && !cut {
					return fmt.Errorf("%s covers %q and gives %v", what, trunc(string(orig[o:o+l]), 200), err)
				}
			}
			return nil
		}
		if l <= 0 {
			if l == 0 && got != "" {
				return fmt.Errorf("%s gives %q for no bytes", what, trunc(got, 200))
			}
			return nil
		}
		if o < 0 || o+l > int64(len(orig)) {
			return fmt.Errorf("%s covers [%d,%d) of %d bytes and gives %q", what, o, o+l, len(orig), trunc(got, 200))
		}
		if !rc.plainEnc() {
			return nil
		}
		src := orig[o : o+l]
		if !raw && bytes.IndexByte(src, '&') >= 0 {
			one, two, bad, _ := readRange(orig, int(o), int(o+l))
			if bad {
				return fmt.Errorf("%s covers %q, where a reference denotes no character, and gives %q", what, trunc(string(src), 200), trunc(got, 200))
			}
			if got != one && got != two {
				return fmt.Errorf("%s covers %q and gives %q, want %q", what, trunc(string(src), 200), trunc(got, 200), trunc(one, 200))
			}
			return nil
		}
		norm := func(b []byte) string {
			return string(bytes.ReplaceAll(bytes.ReplaceAll(b, []byte("\r\n"), []byte("\n")), []byte("\r"), []byte("\n")))
		}
		if got != norm(src) && got != norm(bytes.ReplaceAll(src, []byte("\r"), []byte("\n"))) {
			// a character or line end may be read whole although the range cuts it: the
			// result then is the text of a longer range, still part of the document
			for e := o + l; e <= min(o+l+3, int64(len(orig))); e++ {
				if w := orig[o:e]; !raw && (got == norm(w) || got == norm(bytes.ReplaceAll(w, []byte("\r"), []byte("\n")))) {
					return nil
				}
			}
			return fmt.Errorf("%s covers %q and gives %q", what, trunc(string(src), 200), trunc(got, 200))
		}
		return nil
	}
	for i := range rc.Recs {
		got, err := record(nav, i)
		if err != nil {
			continue
		}
		want := wantRec(rc.Recs, i, rc.NS)
		l := int64(want.Len)
		if k := want.Type; k == 0 || k == 2 || k == 3 {
			l &= 0xFFFF
		}
		s, err := nav.ToStringAtIndex(i)
		if e := str(fmt.Sprintf("ToStringAtIndex(%d), record %+v", i, got), int64(want.Off), l, s, err, want.Type != 5 && want.Type != 4); e != nil {
			return e
		}
		s, err = nav.ToRawStringAtIndex(i)
		if e := str(fmt.Sprintf("ToRawStringAtIndex(%d), record %+v", i, got), int64(want.Off), l, s, err, true); e != nil {
			return e
		}
	}
	for _, r := range rc.Rng {
		s, err := nav.ToStringAtRange(r[0], r[1])
		if e := str(fmt.Sprintf("ToStringAtRange(%d,%d)", r[0], r[1]), int64(r[0]), int64(r[1]), s, err, false); e != nil {
			return e
		}
		s, err = nav.ToRawStringAtRange(r[0], r[1])
		if e := str(fmt.Sprintf("ToRawStringAtRange(%d,%d)", r[0], r[1]), int64(r[0]), int64(r[1]), s, err, true); e != nil {
			return e
		}
	}
	if err := badIdx(nav, len(rc.Recs)); err != nil {
		return err
	}
	for k, m := range rc.Moves {
		c.Evals(1)
		ok, err := nav.ToElement(navigation.Direction(m))
		if ok && err != nil {
			return fmt.Errorf("move %d (%d) answers true and %v", k, m, err)
		}
		if (m < 0 || m > 5) && err == nil {
			return fmt.Errorf("direction %d answers %v and no error", m, ok)
		}
		if err != nil {
			c.Label("move gives an error")
		} else if ok {
			c.Label("move succeeds")
		} else {
			c.Label("move refused")
		}
		if i, err := nav.GetCurrentIndex(); err == nil {
			_, _ = nav.ToStringAtIndex(int(i))
			_, _ = nav.ToRawStringAtIndex(int(i))
		}
	}
	if !bytes.Equal(orig, rc.Doc) {
		return fmt.Errorf("the document bytes changed")
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C21",
		Rule: "navigation objects built over drawn lists of token records (every kind, depth, length and offset, spare bits set, runs that continue a value and near misses), fields against plain arithmetic; " +
			"non-trivial: at least three records",
		New: func() any { return &RecCase{} },
		Gen: func(t *rapid.T) any {
			return &RecCase{Recs: genRecs(t, 40), NS: chance(t, 1, 2), Exp: pick(t, 10, 0, 1, 2, 3), Enc: pick(t, 2, 0, 1, 28), Doc: Blob("<a/>"), Depth: int32(n(t, 0, 9))}
		},
		Check: checkRecords,
		Fixed: func(tier string) []any {
			// long lists, and values of many records
			var out []any
			for _, pad := range []int{250, 1020, 4090, 16380, 65530, 70000, 1<<18 - 3} {
				for k := 0; k < 8; k++ {
					rc := &RecCase{Pad: pad, NS: k%2 == 1, Exp: 10 - k%3*3, Doc: Blob("<a/>"), Enc: 2}
					kind, off := []int{5, 6, 11}[k%3], 100
					for j := 0; j < 4+k*k*5; j++ {
						l := []int{1<<20 - 1, 1<<20 - 1, 1<<16 + j, j, 1<<20 - 1 - k}[(j+k)%5]
						if off+l >= 1<<30 {
							break
						}
						rc.Recs = append(rc.Recs, mkRec(kind, 3+k*17, l, 0, off))
						off += l
					}
					rc.Recs = append(rc.Recs, mkRec(0, 3+k*17, 5, 0, off))
					out = append(out, rc)
				}
			}
			return out
		},
		Quick: 120000, Thorough: 10000000,
	})
	register(&Prop{
		ID: "C22",
		Rule: "every sequence of up to five tokens of references, whole and damaged, in bytes that were not parsed (malformed and cut-off references give an error); navigation objects over damaged parts of parsed documents (bits flipped, records and location-cache entries replaced, dropped, doubled, swapped) and over random records, with drawn moves, ranges, indexes and directions; " +
			"non-trivial: at least two records and two moves",
		New: func() any { return &RecCase{} }, Gen: genDamaged, Check: checkDamaged,
		Fixed: refParts,
		Quick: 60000, Thorough: 5000000, CPULimit: 10,
	})
}

// parseParts makes the records and location caches a parsed document has, from the
// reference parser.
func parseParts(doc []byte, o Opts) (*navParts, error) {
	r := refxml.Parse(doc)
	if r.Verdict != refxml.Accept || (o.NS && r.NS != refxml.Accept) {
		return nil, fmt.Errorf("not accepted")
	}
	p := &navParts{}
	for i, t := range r.Toks {
		l := t.Len
		if isName(t.Kind) && t.Prefix > 0 {
			l |= t.Prefix << 11
		}
		p.recs = append(p.recs, mkRec(int(tokenOf[t.Kind]), t.Depth, l, 0, t.Off))
		if t.Kind == refxml.StartTag && t.Depth == 0 {
			p.root = int32(i)
		}
	}
	pos := map[*refxml.Elem]int{}
	cnt := [4]int{}
	for _, e := range r.Elems {
		if e.Depth >= 1 && e.Depth <= 3 {
			pos[e] = cnt[e.Depth]
			cnt[e.Depth]++
		}
		p.depth = max(p.depth, int32(e.Depth))
	}
	for _, e := range r.Elems {
		if e.Depth < 1 || e.Depth > 3 {
			continue
		}
		lower := uint64(0xFFFFFFFF)
		if e.Depth < 3 && len(e.Children) > 0 {
			lower = uint64(pos[e.Children[0]])
		}
		p.l[e.Depth-1] = append(p.l[e.Depth-1], uint64(e.Tok)<<32|lower)
	}
	p.depth++
	return p, nil
}
