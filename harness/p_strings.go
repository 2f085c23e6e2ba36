package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// compareString compares a string with the source it should come from. want turns
// source text into the right string. A CR LF pair that reads as two line feeds is the
// listed finding "crlf".
func compareString(c *Ctx, prop, got string, src []byte, want func([]byte) string) error {
	w := want(src)
	if got == w {
		return nil
	}
	if bytes.Contains(src, []byte("\r\n")) {
		// the same, with each CR and each LF read on its own
		doubled := bytes.ReplaceAll(src, []byte("\r"), []byte("\n"))
		if got == want(doubled) {
			if listed(prop, "crlf") {
				c.Known("crlf")
				return nil
			}
			return fmt.Errorf("a CR LF pair reads as two line feeds: got %q, want %q", trunc(got, 300), trunc(w, 300))
		}
	}
	return fmt.Errorf("got %q, want %q", trunc(got, 400), trunc(w, 400))
}

func resolved(src []byte) string {
	s, ok := refxml.Resolve(src)
	if !ok {
		panic(harnessPanic("reference that cannot be resolved: " + string(src)))
	}
	return s
}

// cuts lists the offsets of src between two characters or references.
func cuts(src []byte) []int {
	var out []int
	for i := 0; i < len(src); {
		out = append(out, i)
		switch {
		case src[i] == '&':
			i += bytes.IndexByte(src[i:], ';') + 1
		case src[i] == '\r' && i+1 < len(src) && src[i+1] == '\n':
			i += 2
		default:
			i++
			for i < len(src) && src[i]&0xC0 == 0x80 {
				i++
			}
		}
	}
	return append(out, len(src))
}

// StrCase is a document whose tokens are read as strings; K chooses partial ranges.
type StrCase struct {
	Doc Blob  `json:"doc"`
	O   Opts  `json:"o"`
	K   []int `json:"k,omitempty"`

	Moves []int `json:"moves,omitempty"` // made before and between the reads
	All   bool  `json:"all,omitempty"`   // every range of every value
	Part  *Part `json:"part,omitempty"`  // instead: many small documents
}

// wander makes the next move of a list; reading must not depend on the cursor.
func wander(nav *navigation.VtdNav, moves []int, k int) {
	if len(moves) > 0 {
		_, _ = nav.ToElement(navigation.Direction(moves[k%len(moves)]))
	}
}

func genWander(t *rapid.T) []int {
	var out []int
	if chance(t, 1, 3) {
		for k := n(t, 1, 6); k > 0; k-- {
			out = append(out, pick(t, 2, 4, 2, 3, 4, 5, 1, 0))
		}
	}
	return out
}

func checkStrings(c *Ctx, sc *StrCase) error {
	if sc.Part != nil {
		return sc.Part.run(c, func(doc []byte, k int) any {
			return &StrCase{Doc: doc, O: Opts{NS: k%3 == 1, LC: 3 + 2*(k%2)}, Moves: []int{2, 4, 3, 2, 1, 5}[:k%7], K: []int{k, k / 3, k / 7, k * 5}}
		}, func(c *Ctx, v any) error { return checkStrings(c, v.(*StrCase)) })
	}
	doc, o, ks := []byte(sc.Doc), sc.O, sc.K
	r, ok := accepted(c, doc)
	if !ok || (o.NS && r.NS != refxml.Accept) {
		return nil
	}
	labelDoc(c, doc, r)
	nav, err := parse(doc, o)
	if err != nil {
		c.Label("rejected by the library")
		return nil
	}
	if nav.GetVtdBufferSize() != len(continued(r.Toks)) {
		c.Label("other token list") // C05's matter
		return nil
	}
	i, next := 0, 0
	for _, tk := range r.Toks {
		i, next = next, next+recordsOf(tk)
		if tk.Kind == refxml.Document {
			continue
		}
		src := doc[tk.Off : tk.Off+tk.Len]
		want := refxml.NormalizeEOL
		if tk.Kind == refxml.Text || tk.Kind == refxml.AttrVal {
			want = resolved
			if bytes.IndexByte(src, '&') >= 0 {
				c.NonTrivial()
			}
		}
		c.Evals(1)
		wander(nav, sc.Moves, i)
		got, err := nav.ToStringAtIndex(i)
		if err != nil {
			return fmt.Errorf("ToStringAtIndex(%d) on %s: %v\ndoc %s", i, fmtTok(tk), err, show(doc))
		}
		if err := compareString(c, "C09", got, src, want); err != nil {
			return fmt.Errorf("ToStringAtIndex(%d) on %s: %w\ndoc %s", i, fmtTok(tk), err, show(doc))
		}
		if tk.Kind == refxml.Text || tk.Kind == refxml.AttrVal {
			cs := cuts(src)
			ks := ks
			if sc.All && len(cs) < 100 {
				ks = nil
				for a := range cs {
					for b := a; b < len(cs); b++ {
						ks = append(ks, a, b)
					}
				}
			}
			for k := 0; k+1 < len(ks); k += 2 {
				a, b := cs[ks[k]%len(cs)], cs[ks[k+1]%len(cs)]
				if a > b {
					a, b = b, a
				}
				c.Evals(1)
				got, err := nav.ToStringAtRange(int32(tk.Off+a), int32(b-a))
				if err != nil {
					return fmt.Errorf("ToStringAtRange(%d,%d): %v\ndoc %s", tk.Off+a, b-a, err, show(doc))
				}
				if err := compareString(c, "C09", got, src[a:b], want); err != nil {
					return fmt.Errorf("ToStringAtRange(%d,%d): %w\ndoc %s", tk.Off+a, b-a, err, show(doc))
				}
			}
		}
	}
	return nil
}

// RawCase reads raw tokens and ranges of a parsed document, or of a navigation object
// made over any bytes.
type RawCase struct {
	Doc    Blob       `json:"doc"`
	O      Opts       `json:"o"`
	Any    bool       `json:"any,omitempty"` // any bytes, not parsed
	Ascii  bool       `json:"ascii,omitempty"`
	Latin1 bool       `json:"latin1,omitempty"`
	Ranges [][2]int32 `json:"ranges"`
	Moves  []int      `json:"moves,omitempty"`
	All    bool       `json:"all,omitempty"`  // every range
	Part   *Part      `json:"part,omitempty"` // instead: many small documents
}

// rawNav makes a navigation object over bytes that were not parsed.
func rawNav(b []byte, enc common.FormatEncoding) *navigation.VtdNav {
	vtd, err := buffer.NewFastLongBuffer()
	if err != nil {
		panic(harnessPanic(err.Error()))
	}
	var l [3]*buffer.FastLongBuffer
	for i := range l {
		l[i], _ = buffer.NewFastLongBuffer()
	}
	nav, err := navigation.NewVtdNav(0, 0, int32(len(b)), 1, enc, false, b, vtd, l[0], l[1], l[2])
	if err != nil {
		panic(harnessPanic(err.Error()))
	}
	return nav
}

func genRange(t *rapid.T, size int) [2]int32 {
	switch n(t, 0, 7) {
	case 0: // anything
		return [2]int32{rapid.Int32().Draw(t, "o"), rapid.Int32().Draw(t, "l")}
	case 1: // up to the end and over it
		o := n(t, 0, size)
		return [2]int32{int32(o), int32(size - o + n(t, 0, 2))}
	case 2:
		return [2]int32{pick(t, int32(-1), math.MinInt32, math.MaxInt32, math.MaxInt32-1, int32(size), int32(size+1), int32(-size), 1<<30), pick(t, int32(1), math.MaxInt32, math.MaxInt32-1, 2, int32(size), int32(size)+1, 1<<30)}
	case 3: // wraps into the document
		o := n(t, 0, size)
		return [2]int32{int32(o), int32(math.MaxInt32 - n(t, 0, 3))}
	default:
		o := n(t, 0, max(0, size-1))
		return [2]int32{int32(o), int32(n(t, 0, size-o))}
	}
}

func checkRaw(c *Ctx, rc *RawCase) error {
	if rc.Part != nil {
		return rc.Part.run(c, func(doc []byte, k int) any {
			l := int32(len(doc))
			return &RawCase{Doc: doc, O: Opts{NS: k%3 == 1, LC: 3 + 2*(k%2)}, Any: k%4 == 3, Ascii: k%8 == 7, Moves: []int{2, 4, 3, 2, 1, 5}[:k%7],
				Ranges: [][2]int32{{0, l}, {int32(k) % (l + 1), int32(k/3) % (l + 2)}, {l - 1, 1}, {l / 2, l}}}
		}, func(c *Ctx, v any) error { return checkRaw(c, v.(*RawCase)) })
	}
	doc := []byte(rc.Doc)
	var nav *navigation.VtdNav
	if rc.Any {
		if len(doc) == 0 {
			return nil
		}
		enc := common.FormatUtf8
		if rc.Ascii {
			enc = common.FormatAscii
		}
		if rc.Latin1 {
			enc = common.FormatIso88591
		}
		nav = rawNav(doc, enc)
		c.Label("bytes that were not parsed")
	} else {
		r, ok := accepted(c, doc)
		if !ok || (rc.O.NS && r.NS != refxml.Accept) {
			return nil
		}
		labelDoc(c, doc, r)
		var err error
		if nav, err = parse(doc, rc.O); err != nil {
			c.Label("rejected by the library")
			return nil
		}
		toks := continued(r.Toks)
		if nav.GetVtdBufferSize() != len(toks) {
			c.Label("other token list")
			return nil
		}
		for i, tk := range toks {
			if tk.Kind == refxml.Document {
				continue
			}
			c.Evals(1)
			wander(nav, rc.Moves, i)
			got, err := nav.ToRawStringAtIndex(i)
			if err != nil {
				return fmt.Errorf("ToRawStringAtIndex(%d) on %s: %v\ndoc %s", i, fmtTok(tk), err, show(doc))
			}
			if err := compareString(c, "C10", got, doc[tk.Off:tk.Off+tk.Len], refxml.NormalizeEOL); err != nil {
				return fmt.Errorf("ToRawStringAtIndex(%d) on %s: %w\ndoc %s", i, fmtTok(tk), err, show(doc))
			}
		}
	}
	ranges := rc.Ranges
	if rc.All && len(doc) < 400 {
		for o := -1; o <= len(doc)+1; o++ {
			for l := 1; o+l <= len(doc)+1; l++ {
				ranges = append(ranges, [2]int32{int32(o), int32(l)})
			}
		}
	}
	for _, rg := range ranges {
		o, l := int64(rg[0]), int64(rg[1])
		if l < 0 || (l == 0 && (o < 0 || o > int64(len(doc)))) {
			continue // unclaimed
		}
		c.Evals(1)
		got, err := nav.ToRawStringAtRange(rg[0], rg[1])
		if o < 0 || o+l > int64(len(doc)) {
			c.Label("range outside")
			if err == nil {
				return fmt.Errorf("ToRawStringAtRange(%d,%d) leaves the document of %d bytes and returns %q\ndoc %s", o, l, len(doc), trunc(got, 200), show(doc))
			}
			if got != "" {
				return fmt.Errorf("ToRawStringAtRange(%d,%d) returns an error and the partial string %q\ndoc %s", o, l, trunc(got, 200), show(doc))
			}
			// the resolving form has to refuse it as well
			if s, err := nav.ToStringAtRange(rg[0], rg[1]); err == nil || s != "" {
				return fmt.Errorf("ToStringAtRange(%d,%d) leaves the document of %d bytes: string %q, error %v\ndoc %s", o, l, len(doc), trunc(s, 200), err, show(doc))
			}
			continue
		}
		c.Label("range inside")
		if l > 0 {
			c.NonTrivial()
		}
		if err != nil {
			return fmt.Errorf("ToRawStringAtRange(%d,%d) inside the document of %d bytes: %v\ndoc %s", o, l, len(doc), err, show(doc))
		}
		if err := compareString(c, "C10", got, doc[o:o+l], refxml.NormalizeEOL); err != nil {
			return fmt.Errorf("ToRawStringAtRange(%d,%d): %w\ndoc %s", o, l, err, show(doc))
		}
	}
	return nil
}

// genRefDoc makes a document around one value made of references and characters.
func genRefDoc(t *rapid.T) []byte {
	var b strings.Builder
	piece := func() string {
		switch weighted(t, 4, 6, 3, 1) {
		case 0:
			return pick(t, "a", "é", "日", "𐀀", ";", "#", "x", "amp", "]", ">", " ", "\n", "\t", "lt;", "1")
		case 1:
			r := pick(t, rune(n(t, 0x20, 0x7F)), rune(n(t, 0x80, 0x7FF)), rune(n(t, 0x800, 0xD7FF)), rune(n(t, 0xE000, 0xFFFD)), rune(n(t, 0x10000, 0x10FFFF)), 9, 10, 13, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFFFF-2, '&', '<')
			zeros := strings.Repeat("0", pick(t, 0, 0, 0, 1, 5, 20))
			switch n(t, 0, 2) {
			case 0:
				return fmt.Sprintf("&#%s%d;", zeros, r)
			case 1:
				return fmt.Sprintf("&#x%s%x;", zeros, r)
			default:
				return fmt.Sprintf("&#x%s%X;", zeros, r)
			}
		case 2:
			return pick(t, "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&amp;lt;", "&#38;amp;", "&amp;#65;")
		default:
			return pick(t, "\r", "\r\r", "\n\r", "\r\n", "&#13;\n", "\r&#10;", "&#xD;&#xA;")
		}
	}
	val := func() string {
		var s string
		for k := n(t, 0, 8); k > 0; k-- {
			s += piece()
		}
		return s
	}
	b.WriteString("<a b='" + val() + "' c=\"" + val() + "\">")
	for k := n(t, 0, 3); k > 0; k-- {
		b.WriteString(strings.ReplaceAll(val(), "]]>", "]]") + pick(t, "<b/>", "<!--&amp;\r-->", "<![CDATA[&lt;]]>", "<?p &#65;?>", ""))
	}
	b.WriteString("</a>")
	return []byte(strings.ReplaceAll(b.String(), "]]>", "]]&gt;"))
}

func fixCdata(doc []byte) []byte {
	return bytes.ReplaceAll(doc, []byte("<![CDATA[&lt;]]&gt;"), []byte("<![CDATA[&lt;]]>"))
}

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "generated documents rich in references (every spelling, every code point range, next to each other and to line ends); every token's string, and strings of partial ranges, compared with an independent resolver; " +
			"non-trivial: some text or attribute value contains a reference; CR LF pairs read as two line feeds are the listed finding",
		New: func() any { return &StrCase{} },
		Gen: func(t *rapid.T) any {
			sc := &StrCase{O: Opts{NS: chance(t, 1, 3), LC: pick(t, 0, 5)}}
			switch weighted(t, 4, 4, 1) {
			case 0:
				sc.Doc = genDoc(t, DocCfg{NS: sc.O.NS, Refs: true, NoCRLF: chance(t, 3, 4)})
			case 1:
				sc.Doc = fixCdata(genRefDoc(t))
			default:
				sc.Doc = genShape(t, sc.O.NS)
			}
			for k := n(t, 0, 4); k > 0; k-- {
				sc.K = append(sc.K, n(t, 0, 40), n(t, 0, 40))
			}
			sc.Moves = genWander(t)
			return sc
		},
		Check: func(c *Ctx, v any) error {
			sc := v.(*StrCase)
			return checkStrings(c, sc)
		},
		Fixed: func(tier string) []any {
			// every character reference of a sample (thorough: of every character)
			var out []any
			for i, d := range sweepDocs {
				sc := &StrCase{Doc: Blob(d), All: true, O: Opts{NS: i%2 == 1}}
				out = append(out, sc)
			}
			step := rune(197)
			if tier == "thorough" {
				step = 1
			}
			var b strings.Builder
			cnt := 0
			flush := func() {
				if cnt > 0 {
					out = append(out, &StrCase{Doc: Blob("<a>" + b.String() + "</a>")})
					b.Reset()
					cnt = 0
				}
			}
			for r := rune(0x20); r <= 0x10FFFF; r += step {
				if r >= 0xD800 && r <= 0xDFFF || r == 0xFFFE || r == 0xFFFF {
					continue
				}
				fmt.Fprintf(&b, "&#%d;&#x%x;&#x%X;z%c", r, r, r, map[bool]rune{true: 'z', false: r}[r == '<' || r == '&' || r == ']'])
				if cnt++; cnt == 64 {
					flush()
				}
			}
			flush()
			for _, p := range partList(tier, 1, 1) {
				out = append(out, &StrCase{Part: p})
			}
			for _, p := range append(append(scaled(tier, 70000, "values", "twins", "uris", "edges", "zeros", "widths", "chars"), scaled(tier, 0, "offsets")...), append(transplanted(tier, 0, 10000, true), transplanted(tier, 4, 5000, true)...)...) {
				out = append(out, &StrCase{Part: p})
			}
			return out
		},
		Quick: 40000, Thorough: 2000000,
	})
	register(&Prop{
		ID: "C10",
		Rule: "generated documents (and arbitrary bytes behind a navigation object): every token read raw, and drawn ranges inside, at and over the edges and with extreme 32-bit values; compared with the source bytes; " +
			"non-trivial: some range inside the document is not empty; CR LF pairs read as two line feeds are the listed finding",
		New: func() any { return &RawCase{} },
		Gen: func(t *rapid.T) any {
			rc := &RawCase{O: Opts{NS: chance(t, 1, 3), LC: pick(t, 0, 5)}}
			if chance(t, 1, 3) {
				rc.Any, rc.Ascii, rc.Latin1 = true, chance(t, 1, 2), chance(t, 1, 4)
				k := n(t, 1, 40)
				for i := 0; i < k; i++ {
					rc.Doc = append(rc.Doc, pick(t, byte(n(t, 0, 255)), 'a', '\r', '\n', '&', 0x80, 0xff, ';'))
				}
				if chance(t, 2, 3) {
					rc.Doc = bytes.ReplaceAll(rc.Doc, []byte("\r\n"), []byte("\r"))
				}
			} else if chance(t, 1, 10) {
				rc.Doc = genShape(t, rc.O.NS)
			} else {
				rc.Doc = genDoc(t, DocCfg{NS: rc.O.NS, NoCRLF: chance(t, 3, 4)})
			}
			for k := n(t, 1, 8); k > 0; k-- {
				rc.Ranges = append(rc.Ranges, genRange(t, len(rc.Doc)))
			}
			rc.Moves = genWander(t)
			return rc
		},
		Fixed: func(tier string) []any {
			var out []any
			for i, d := range sweepDocs {
				out = append(out, &RawCase{Doc: Blob(d), O: Opts{NS: i%2 == 1}, All: true})
				out = append(out, &RawCase{Doc: Blob(d), Any: true, Ascii: i%2 == 0, All: true})
			}
			// every byte, and every pair of some
			for k := 0; k < 3; k++ {
				rc := RawCase{Any: true, Ascii: k == 1, Latin1: k == 2, All: true}
				for b := 0; b < 256; b++ {
					rc.Doc = append(rc.Doc, byte(b))
				}
				pairs := rc
				pairs.Doc = nil
				for _, x := range "\r\n&<\x00\u0080a;" {
					for _, y := range "\n&<\x00\u0080a;\r" {
						if x != '\r' || y != '\n' {
							pairs.Doc = append(pairs.Doc, byte(x), byte(y), 'z')
						}
					}
				}
				out = append(out, &rc, &pairs)
			}
			for _, p := range partList(tier, 1, 1) {
				out = append(out, &RawCase{Part: p})
			}
			for _, p := range append(append(scaled(tier, 70000, "values", "twins", "lines", "space", "edges", "widths", "chars"), scaled(tier, 0, "offsets")...), append(sparse(tier, 3, transplanted(tier, 0, 10000, true)), sparse(tier, 2, transplanted(tier, 4, 4000, true))...)...) {
				out = append(out, &RawCase{Part: p})
			}
			return out
		},
		Check: func(c *Ctx, v any) error { return checkRaw(c, v.(*RawCase)) },
		Quick: 60000, Thorough: 3000000,
	})
}
