// Package refxml is an independent strict XML 1.0 (5th edition) + Namespaces 1.0
// parser used as the oracle of the checks. It is written from the specifications and
// from the intended token layout, and shares no code with the library under test.
//
// Verdicts are three-valued: Accept (the library must accept), Reject (the library
// must reject) and Unclaimed (the properties make no claim about this document).
package refxml

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

type Verdict int

const (
	Accept Verdict = iota
	Reject
	Unclaimed
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unclaimed"}[v] }

type Kind int

const (
	StartTag Kind = iota
	AttrName
	AttrNs
	AttrVal
	Text
	Comment
	PiName
	PiVal
	DecAttrName
	DecAttrVal
	Cdata
	Dtd
	Document
)

var kindNames = [...]string{"StartTag", "AttrName", "AttrNs", "AttrVal", "Text", "Comment", "PiName", "PiVal",
	"DecAttrName", "DecAttrVal", "Cdata", "Dtd", "Document"}

func (k Kind) String() string { return kindNames[k] }

const (
	MaxToken  = 1<<20 - 1
	MaxPrefix = 1<<9 - 1
	MaxQName  = 1<<11 - 1
	MaxDepth  = 255 // nested elements
)

// Tok is one expected token. OffHi > Off means that any offset in [Off,OffHi] is right.
type Tok struct {
	Kind   Kind
	Off    int
	OffHi  int
	Len    int
	Prefix int // prefix length of names with exactly one colon; -1: not claimed
	Depth  int
}

type Elem struct {
	Tok      int // index in Result.Toks
	Depth    int
	Parent   *Elem
	Index    int // position among siblings
	Children []*Elem
}

type Result struct {
	Verdict Verdict
	Reason  string
	Tainted bool // something unclaimed was met: which error is reported is not claimed
	// rejection details
	EOF      bool // the input is a proper prefix of something viable
	EOFLoose bool // ... but ends inside a fixed delimiter, or is ambiguous
	Limit    bool // an implementation limit is exceeded
	Enc      bool // encoding trouble
	S, E     int  // construct start, and offset of the first offending byte

	NS       Verdict // namespace verdict of what was read
	NSReason string
	NSS      int      // start tag with the first namespace error, or -1
	NSErrs   [][2]int // where its errors stand

	Ascii    bool
	BOM      bool
	Version  string
	Toks     []Tok
	Root     *Elem
	Elems    []*Elem
	MaxDepth int // deepest element depth (root = 0); -1 if none
	RootEnd  int // offset just behind the root element
	HasDTD   bool
	NAttrs   int
	NNs      int
	NRefs    int
	NText    int
}

type stop struct{}

type parser struct {
	d    []byte
	i    int
	r    *Result
	ents bool // a DTD is present: other entities may be declared

	tagAt int // the start tag being read
}

// Parse reads the whole of d as one document.
func Parse(d []byte) (res *Result) {
	p := &parser{d: d, r: &Result{MaxDepth: -1, RootEnd: -1, NSS: -1}}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); !ok {
				panic(e)
			}
			res = p.r
		}
	}()
	p.document()
	return p.r
}

func (p *parser) taint(why string) {
	p.r.Tainted = true
	if p.r.Verdict == Accept {
		p.r.Verdict, p.r.Reason = Unclaimed, why
	}
}

// unclaimed gives up: nothing behind this point can be judged.
func (p *parser) unclaimed(why string) {
	p.taint(why)
	panic(stop{})
}

func (p *parser) finish(s, e int, why string) {
	p.r.S, p.r.E = s, e
	// an unclaimed document with a definite error is a definite rejection
	p.r.Verdict, p.r.Reason = Reject, why
	panic(stop{})
}

func (p *parser) fail(s, e int, why string) {
	p.finish(s, e, why)
}

func (p *parser) eof(loose bool) {
	p.r.EOF, p.r.EOFLoose = true, loose
	p.finish(len(p.d), len(p.d), "premature end")
}

func (p *parser) limit(s, e int, why string) {
	p.r.Limit = true
	p.finish(s, e, why)
}

func (p *parser) nsFail(why string, s, e int) {
	if p.r.NS == Accept {
		p.r.NS, p.r.NSReason = Reject, why
		p.r.NSS = p.tagAt
	}
	if p.r.NSS == p.tagAt {
		p.r.NSErrs = append(p.r.NSErrs, [2]int{s, e})
	}
}

func (p *parser) nsTaint(why string) {
	// an unclaimed construct hides later namespace verdicts
	if p.r.NS == Accept {
		p.r.NS, p.r.NSReason = Unclaimed, why
	}
}

func (p *parser) more() bool { return p.i < len(p.d) }

// peek decodes the character at i; at the end of input it is a premature end.
func (p *parser) peek() (rune, int) {
	if p.i >= len(p.d) {
		p.eof(false)
	}
	b := p.d[p.i]
	if b < 0x80 {
		return rune(b), 1
	}
	if p.r.Ascii {
		p.r.Enc = true
		p.fail(p.i, p.i, "non-ASCII byte in an ASCII document")
	}
	r, w := utf8.DecodeRune(p.d[p.i:])
	if r == utf8.RuneError && w <= 1 {
		p.r.Enc = true
		if !utf8.FullRune(p.d[p.i:]) {
			p.eof(true)
		}
		p.fail(p.i, p.i, "invalid UTF-8")
	}
	return r, w
}

func (p *parser) next() rune {
	r, w := p.peek()
	p.i += w
	return r
}

func (p *parser) has(s string) bool {
	return strings.HasPrefix(string(p.d[p.i:min(len(p.d), p.i+len(s))]), s)
}

// lit consumes a fixed literal or fails.
func (p *parser) lit(s string, start int) {
	for k := 0; k < len(s); k++ {
		if p.i >= len(p.d) {
			p.eof(true)
		}
		if p.d[p.i] != s[k] {
			p.peek() // reports encoding trouble first
			p.fail(start, p.i, fmt.Sprintf("expected %q", s))
		}
		p.i++
	}
}

func isSpace(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

func (p *parser) ws() int {
	n := 0
	for p.i < len(p.d) && isSpace(rune(p.d[p.i])) {
		p.i++
		n++
	}
	return n
}

func in(r rune, rs ...rune) bool {
	for k := 0; k < len(rs); k += 2 {
		if r >= rs[k] && r <= rs[k+1] {
			return true
		}
	}
	return false
}

func IsNameStart(r rune) bool {
	return r == ':' || r == '_' || in(r, 'A', 'Z', 'a', 'z', 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D,
		0x37F, 0x1FFF, 0x200C, 0x200D, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xF900, 0xFDCF,
		0xFDF0, 0xFFFD, 0x10000, 0xEFFFF)
}

func IsName(r rune) bool {
	return IsNameStart(r) || r == '-' || r == '.' || r == 0xB7 || in(r, '0', '9', 0x300, 0x36F, 0x203F, 0x2040)
}

// char checks a literal or referenced character; start is where it begins.
func (p *parser) char(r rune, s, e int) {
	switch {
	case r == '\t' || r == '\n' || r == '\r':
	case r >= 1 && r < 0x20:
		p.taint("C0 control character")
	case r >= 0x7F && r <= 0x9F || r == 0x2028:
		if p.r.Version == "1.1" {
			p.taint("restricted character in XML 1.1")
		}
	case r >= 0x20 && r <= 0xD7FF, r >= 0xE000 && r <= 0xFFFD, r >= 0x10000 && r <= 0x10FFFF:
	default:
		p.fail(s, e, fmt.Sprintf("character U+%04X is not allowed", r))
	}
}

type name struct {
	off, n  int
	colons  int
	prefix  int // bytes before the only colon
	claimed bool
}

func (nm name) str(d []byte) string { return string(d[nm.off : nm.off+nm.n]) }

func (p *parser) name(start int) name {
	nm := name{off: p.i}
	at := p.i
	r := p.next()
	if !IsNameStart(r) {
		p.fail(start, at, "name expected")
	}
	first := true
	bad := false
	afterColon := false
	for {
		if !first {
			at = p.i
			var w int
			r, w = p.peek()
			if !IsName(r) {
				break
			}
			p.i += w
		}
		if afterColon && (!IsNameStart(r) || r == ':') {
			bad = true
		}
		afterColon = false
		if r == ':' {
			nm.colons++
			nm.prefix = at - nm.off
			afterColon = true
			if at == nm.off {
				bad = true
			}
		}
		first = false
	}
	nm.n = p.i - nm.off
	if afterColon || nm.colons > 1 {
		bad = true
	}
	nm.claimed = !bad
	return nm
}

func (nm name) tokPrefix() int {
	if nm.colons == 0 {
		return 0
	}
	if nm.colons == 1 {
		return nm.prefix
	}
	return -1
}

func (p *parser) tok(k Kind, off, n, depth int) int {
	p.r.Toks = append(p.r.Toks, Tok{Kind: k, Off: off, OffHi: off, Len: n, Depth: depth})
	return len(p.r.Toks) - 1
}

func (p *parser) document() {
	d := p.d
	p.tok(Document, 0, 0, -1)
	if len(d) > 0 {
		switch d[0] {
		case 0xFE, 0xFF, 0:
			p.r.Enc = true
			p.fail(0, 0, "UTF-16 or unknown encoding")
		case 0xEF:
			if len(d) < 3 && strings.HasPrefix("\xEF\xBB\xBF", string(d)) {
				p.r.Enc = true
				p.eof(true)
			}
			if !p.has("\xEF\xBB\xBF") {
				p.r.Enc = true
				p.fail(0, 0, "not a byte-order mark")
			}
			p.i = 3
			p.r.BOM = true
		case '<':
			if p.has("<\x00?\x00") {
				p.r.Enc = true
				p.fail(0, 0, "UTF-16")
			}
		}
	}
	if p.has("<?xml") && (p.i+5 == len(d) || isSpace(rune(d[p.i+5]))) {
		p.xmlDecl()
	}
	p.misc(true)
	p.element()
	p.r.RootEnd = p.i
	p.misc(false)
}

func (p *parser) xmlDecl() {
	start := p.i
	p.i += 5
	if !p.more() {
		p.eof(true)
	}
	p.ws()
	if !p.more() {
		p.eof(false)
	}
	val := func(word string) (int, int) {
		o := p.i
		p.lit(word, start)
		p.tok(DecAttrName, o, len(word), -1)
		p.ws()
		p.declLit("=", start)
		p.ws()
		if !p.more() {
			p.eof(false)
		}
		q := p.d[p.i]
		if q != '"' && q != '\'' {
			p.fail(start, p.i, "quote expected in the XML declaration")
		}
		p.i++
		o = p.i
		for {
			if !p.more() {
				// the value so far may already be wrong
				p.eof(true)
			}
			if p.d[p.i] == q {
				break
			}
			// no declaration value holds these
			if c := p.d[p.i]; c == '<' || c == '>' || c == '?' || c == '\n' || c >= 0x80 || c < 0x20 {
				p.fail(o, p.i, "malformed value in the XML declaration")
			}
			p.i++
		}
		p.tok(DecAttrVal, o, p.i-o, -1)
		p.i++
		return o, p.i - 1 - o
	}
	o, n := val("version")
	p.r.Version = string(p.d[o : o+n])
	if p.r.Version != "1.0" && p.r.Version != "1.1" {
		p.fail(o, o+n, "unsupported version")
	}
	sp := p.ws()
	if p.more() && p.d[p.i] == 'e' {
		if sp == 0 {
			p.fail(p.i, p.i, "space expected before encoding")
		}
		o, n = val("encoding")
		enc := string(p.d[o : o+n])
		switch enc {
		case "UTF-8", "utf-8":
		case "ASCII", "ascii", "US-ASCII", "us-ascii":
			if p.r.BOM {
				p.r.Enc = true
				p.fail(o, o+n, "declared ASCII but has a UTF-8 byte-order mark")
			}
			p.r.Ascii = true
		default:
			switch strings.ToLower(enc) {
			case "utf-8":
				p.taint("mixed-case encoding name")
			case "ascii", "us-ascii":
				if p.r.BOM {
					p.r.Enc = true
					p.fail(o, o+n, "declared ASCII but has a UTF-8 byte-order mark")
				}
				p.taint("mixed-case encoding name")
				p.r.Ascii = true
			default:
				p.r.Enc = true
				p.fail(o, o+n, "unsupported encoding")
			}
		}
		sp = p.ws()
	}
	if p.more() && p.d[p.i] == 's' {
		if sp == 0 {
			p.fail(p.i, p.i, "space expected before standalone")
		}
		o, n = val("standalone")
		if v := string(p.d[o : o+n]); v != "yes" && v != "no" {
			p.fail(o, o+n, "standalone must be yes or no")
		}
		p.ws()
	}
	if !p.more() {
		p.eof(false)
	}
	p.lit("?>", start)
}

func (p *parser) declLit(s string, start int) {
	if !p.more() {
		p.eof(false)
	}
	p.lit(s, start)
}

// openRef: only the beginning of a reference follows, then the input ends.
func (p *parser) openRef(i int) bool {
	for ; i < len(p.d); i++ {
		if c := p.d[i] | 0x20; !(c >= 'a' && c <= 'z' || p.d[i] >= '0' && p.d[i] <= '9' || p.d[i] == '#') {
			return false
		}
	}
	return true
}

// misc reads comments, PIs and space around the root element; in the prolog also one
// DOCTYPE, and it stops at the root's '<'.
func (p *parser) misc(prolog bool) {
	seen := false
	for {
		p.ws()
		if !p.more() {
			if prolog {
				p.eof(false)
			}
			return
		}
		s := p.i
		r, _ := p.peek()
		if r != '<' {
			if r == '&' && p.openRef(p.i+1) {
				p.eof(true) // the input also ends inside a reference: either may be reported
			}
			p.fail(s, s, "text outside the root element")
		}
		if p.i+1 >= len(p.d) {
			p.eof(!prolog)
		}
		switch p.d[p.i+1] {
		case '!':
			if p.i+2 >= len(p.d) {
				p.eof(!prolog)
			}
			switch c := p.d[p.i+2]; {
			case c == '-':
				p.comment(-1)
			case c == 'D' && prolog && !seen:
				seen = true
				p.doctype()
			case c == 'D' || c == '[':
				word := "<!DOCTYPE"
				if c == '[' {
					word = "<![CDATA["
				}
				if strings.HasPrefix(word, string(p.d[p.i:])) {
					p.eof(true)
				}
				e := p.i + 2
				if p.has(word) {
					e = p.i + len(word) - 1
				} else {
					for e < len(p.d) && p.d[e] == word[e-p.i] {
						e++
					}
				}
				p.fail(s, e, "DOCTYPE or CDATA in the wrong place")
			default:
				p.i += 2
				p.peek()
				p.fail(s, p.i, "unrecognised markup")
			}
		case '?':
			p.pi(-1)
		default:
			if prolog {
				return
			}
			p.i++
			p.peek()
			p.fail(s, p.i, "markup after the root element")
		}
	}
}

func (p *parser) comment(depth int) {
	s := p.i
	p.i += 2
	p.lit("--", s)
	o := p.i
	for {
		at := p.i
		r := p.next()
		if r == '-' {
			if !p.more() {
				p.eof(false)
			}
			if p.d[p.i] == '-' {
				p.i++
				if !p.more() {
					p.eof(false)
				}
				if p.d[p.i] != '>' {
					p.peek()
					p.fail(at, p.i, "'--' in a comment")
				}
				p.i++
				p.tok(Comment, o, p.i-3-o, depth)
				return
			}
			continue
		}
		p.char(r, at, at)
	}
}

func (p *parser) pi(depth int) {
	s := p.i
	p.i += 2
	nm := p.name(s)
	if nm.colons > 0 {
		p.nsTaint("colon in a PI target")
	}
	if strings.EqualFold(nm.str(p.d), "xml") {
		p.fail(s, p.i, "reserved PI target")
	}
	if nm.n > MaxToken {
		p.limit(s, p.i, "PI target too long")
	}
	p.tok(PiName, nm.off, nm.n, depth)
	c := p.d[p.i] // name() has peeked
	if c == '?' {
		if p.i+1 >= len(p.d) {
			p.eof(true)
		}
		if p.d[p.i+1] != '>' {
			p.i++
			p.peek()
			p.fail(s, p.i, "'?>' expected")
		}
		p.i += 2
		t := p.tok(PiVal, nm.off, 0, depth)
		p.r.Toks[t].OffHi = p.i
		return
	}
	if !isSpace(rune(c)) {
		p.fail(s, p.i, "malformed PI")
	}
	p.i++
	o := p.i
	for {
		at := p.i
		r := p.next()
		if r == '?' {
			if !p.more() {
				p.eof(false)
			}
			if p.d[p.i] == '>' {
				p.i++
				if n := p.i - 2 - o; n > MaxToken {
					p.limit(s, p.i, "PI value too long")
				}
				p.tok(PiVal, o, p.i-2-o, depth)
				return
			}
			continue
		}
		p.char(r, at, at)
	}
}

// reference reads a reference at '&'.
func (p *parser) reference() {
	s := p.i
	p.i++
	p.r.NRefs++
	if !p.more() {
		p.eof(false)
	}
	if p.d[p.i] == '#' {
		p.i++
		base := uint64(10)
		if p.more() && p.d[p.i] == 'x' {
			base = 16
			p.i++
		}
		var v uint64
		n := 0
		for {
			if !p.more() {
				if v > 0x10FFFF {
					p.eof(true)
				}
				p.eof(false)
			}
			c := p.d[p.i]
			var dig uint64
			switch {
			case c >= '0' && c <= '9':
				dig = uint64(c - '0')
			case base == 16 && c >= 'a' && c <= 'f':
				dig = uint64(c-'a') + 10
			case base == 16 && c >= 'A' && c <= 'F':
				dig = uint64(c-'A') + 10
			case c == ';' && n > 0:
				p.i++
				if v > 0x10FFFF {
					p.fail(s, p.i-1, "reference out of range")
				}
				if v >= 0xD800 && v <= 0xDFFF {
					p.fail(s, p.i-1, "reference to a surrogate")
				}
				p.char(rune(v), s, p.i-1)
				return
			default:
				p.peek()
				p.fail(s, p.i, "malformed character reference")
			}
			if v <= 0x10FFFF {
				v = v*base + dig
			}
			n++
			p.i++
		}
	}
	nameOff := p.i
	r, w := p.peek()
	if !IsNameStart(r) {
		p.fail(s, p.i, "malformed entity reference")
	}
	builtin := []string{"amp;", "lt;", "gt;", "quot;", "apos;"}
	viable := -1 // first byte that leaves every built-in name
	for {
		if viable < 0 {
			ok := false
			for _, b := range builtin {
				if strings.HasPrefix(b, string(p.d[nameOff:p.i+w])) {
					ok = true
				}
			}
			if !ok {
				viable = p.i
				if !p.ents {
					p.fail(s, p.i, "undeclared entity")
				}
			}
		}
		p.i += w
		if !p.more() {
			p.eof(viable >= 0)
		}
		r, w = p.peek()
		if r == ';' {
			p.i++
			for _, b := range builtin {
				if b == string(p.d[nameOff:p.i]) {
					return
				}
			}
			if !p.ents {
				p.fail(s, p.i-1, "undeclared entity")
			}
			p.taint("entity that a DTD may declare")
			return
		}
		if !IsName(r) {
			p.fail(s, p.i, "malformed entity reference")
		}
	}
}

type attr struct {
	nm     name
	off, n int // value
	ns     bool
}

type bindings struct {
	prefix string
	uri    string
	ok     bool // false: value not comparable
}

func (p *parser) element() {
	var stack []*Elem
	type openTag struct {
		nm name
		ns int
	}
	var tags []openTag
	var scope []bindings

	lastStart := -1 // offset behind the start tag that was just read (not empty)
	for {
		// at '<' of a start tag
		s := p.i
		p.tagAt = s
		p.i++
		nm := p.name(s)
		if len(stack) >= MaxDepth {
			p.limit(s, p.i, "too deep")
		}
		if nm.tokPrefix() > MaxPrefix || nm.n > MaxQName {
			p.limit(s, p.i, "name too long")
		}
		if nm.colons > 1 && nm.prefix > MaxPrefix {
			p.unclaimed("long prefix with several colons")
		}
		e := &Elem{Depth: len(stack)}
		e.Tok = p.tok(StartTag, nm.off, nm.n, e.Depth)
		p.r.Toks[e.Tok].Prefix = nm.tokPrefix()
		if e.Depth > p.r.MaxDepth {
			p.r.MaxDepth = e.Depth
		}
		if len(stack) > 0 {
			e.Parent = stack[len(stack)-1]
			e.Index = len(e.Parent.Children)
			e.Parent.Children = append(e.Parent.Children, e)
		} else {
			p.r.Root = e
		}
		p.r.Elems = append(p.r.Elems, e)
		if !nm.claimed {
			p.nsTaint("not a QName")
		} else if nm.colons == 1 && string(p.d[nm.off:nm.off+nm.prefix]) == "xmlns" {
			p.nsFail("element with prefix xmlns", nm.off, nm.off+nm.n)
		}

		attrs := p.attributes(s, e.Depth)
		empty := false
		if p.d[p.i] == '/' {
			empty = true
			p.i++
			if !p.more() {
				p.eof(false)
			}
		}
		if p.d[p.i] != '>' {
			p.peek()
			p.fail(s, p.i, "'>' expected")
		}
		p.i++
		mark := len(scope)
		scope = p.namespaces(nm, attrs, scope)

		if empty {
			scope = scope[:mark]
			if len(stack) == 0 {
				return
			}
			lastStart = -1
		} else {
			stack = append(stack, e)
			tags = append(tags, openTag{nm, mark})
			lastStart = p.i
		}

		// content, until the next start tag
		for {
			depth := len(stack) - 1
			runStart := p.i
			blank := true
			for {
				r, w := p.peek()
				if r == '<' {
					break
				}
				at := p.i
				switch r {
				case '&':
					blank = false
					p.reference()
					continue
				case ']':
					if p.has("]]>") {
						p.fail(at, at+2, "']]>' in text")
					}
				default:
					p.char(r, at, at)
				}
				if !isSpace(r) {
					blank = false
				}
				p.i += w
			}
			runEnd := p.i
			p.i++
			if !p.more() {
				p.eof(false)
			}
			c := p.d[p.i]
			if !blank || (c == '/' && lastStart == runStart) {
				p.r.NText++
				p.tok(Text, runStart, runEnd-runStart, depth)
			}
			lastStart = -1
			if c == '/' {
				s := p.i - 1
				p.i++
				t := tags[len(tags)-1]
				for k := 0; k < t.nm.n; k++ {
					if !p.more() {
						p.eof(false)
					}
					if p.d[p.i] != p.d[t.nm.off+k] {
						p.peek2()
						p.fail(s, p.i, "end tag does not match")
					}
					p.i++
				}
				at := p.i
				r, _ := p.peek()
				if IsName(r) {
					p.fail(s, at, "end tag does not match")
				}
				p.ws()
				r, _ = p.peek()
				if r != '>' {
					p.fail(s, p.i, "malformed end tag")
				}
				p.i++
				stack = stack[:len(stack)-1]
				scope = scope[:t.ns]
				tags = tags[:len(tags)-1]
				if len(stack) == 0 {
					return
				}
				continue
			}
			if c == '?' {
				p.i--
				p.pi(depth)
				continue
			}
			if c == '!' {
				s := p.i - 1
				p.i++
				if !p.more() {
					p.eof(false)
				}
				switch p.d[p.i] {
				case '-':
					p.i = s
					p.comment(depth)
				case '[':
					p.lit("[CDATA[", s)
					p.cdata(depth)
				case 'D':
					p.litWrong("DOCTYPE", s)
				default:
					p.peek()
					p.fail(s, p.i, "unrecognised markup")
				}
				continue
			}
			p.i--
			break
		}
	}
}

// peek2 reports encoding trouble at i, if any, unless i is inside a character.
func (p *parser) peek2() {
	if utf8.RuneStart(p.d[p.i]) && (p.r.Ascii || utf8.FullRune(p.d[p.i:])) {
		p.peek()
	}
}

func (p *parser) litWrong(word string, s int) {
	for k := 0; k < len(word); k++ {
		if !p.more() {
			p.eof(true)
		}
		if p.d[p.i] != word[k] {
			p.peek()
			p.fail(s, p.i, "malformed markup")
		}
		p.i++
	}
	p.fail(s, p.i-1, "DOCTYPE inside an element")
}

func (p *parser) cdata(depth int) {
	o := p.i
	for {
		at := p.i
		r := p.next()
		if r == ']' {
			if p.has("]>") {
				p.i += 2
				p.tok(Cdata, o, p.i-3-o, depth)
				return
			}
			if !p.more() || (p.i+1 == len(p.d) && p.d[p.i] == ']') {
				p.eof(false)
			}
			continue
		}
		p.char(r, at, at)
	}
}

// attributes reads up to '/' or '>' of a start tag.
func (p *parser) attributes(s, depth int) []attr {
	var attrs []attr
	seen := map[string]bool{}
	for {
		sp := p.ws()
		r, _ := p.peek()
		if r == '/' || r == '>' {
			return attrs
		}
		if !IsNameStart(r) {
			p.fail(s, p.i, "malformed start tag")
		}
		if sp == 0 {
			p.fail(s, p.i, "space expected before an attribute")
		}
		nm := p.name(s)
		if nm.tokPrefix() > MaxPrefix || nm.n > MaxQName {
			p.limit(s, p.i, "attribute name too long")
		}
		if nm.colons > 1 && nm.prefix > MaxPrefix {
			p.unclaimed("long prefix with several colons")
		}
		str := nm.str(p.d)
		if seen[str] {
			p.fail(nm.off, p.i, "duplicate attribute")
		}
		seen[str] = true
		a := attr{nm: nm}
		k := AttrName
		if str == "xmlns" || (len(str) > 5 && str[:6] == "xmlns:") {
			k = AttrNs
			a.ns = true
			p.r.NNs++
		}
		p.r.NAttrs++
		t := p.tok(k, nm.off, nm.n, depth)
		p.r.Toks[t].Prefix = nm.tokPrefix()
		p.ws()
		r, _ = p.peek()
		if r != '=' {
			p.fail(nm.off, p.i, "'=' expected")
		}
		p.i++
		p.ws()
		q, _ := p.peek()
		if q != '"' && q != '\'' {
			p.fail(nm.off, p.i, "quote expected")
		}
		p.i++
		a.off = p.i
		for {
			at := p.i
			r, w := p.peek()
			if r == q {
				break
			}
			if r == '<' {
				p.fail(at, at, "'<' in an attribute value")
			}
			if r == '&' {
				p.reference()
				continue
			}
			p.char(r, at, at)
			p.i += w
		}
		a.n = p.i - a.off
		p.i++
		if a.n > MaxToken {
			p.limit(a.off, p.i, "attribute value too long")
		}
		p.tok(AttrVal, a.off, a.n, depth)
		attrs = append(attrs, a)
	}
}

const (
	XMLURI   = "http://www.w3.org/XML/1998/namespace"
	XMLNSURI = "http://www.w3.org/2000/xmlns/"
)

func (p *parser) namespaces(el name, attrs []attr, scope []bindings) []bindings {
	if p.r.HasDTD && strings.Contains(string(p.d[:el.off]), "ATTLIST") {
		p.nsTaint("attributes may be defaulted")
	}
	for _, a := range attrs {
		if !a.nm.claimed {
			p.nsTaint("not a QName")
			continue
		}
		if !a.ns {
			continue
		}
		uri, ok := Resolve(p.d[a.off : a.off+a.n])
		if !ok || strings.ContainsAny(uri, "\t\n\r") {
			p.nsTaint("namespace name that attribute-value normalisation changes")
			ok = false
		}
		prefix := ""
		if a.nm.colons == 1 {
			prefix = string(p.d[a.nm.off+6 : a.nm.off+a.nm.n])
		}
		switch {
		case prefix == "xmlns":
			p.nsFail("xmlns declared", a.nm.off, a.off+a.n+1)
		case prefix == "xml":
			if uri != XMLURI {
				p.nsFail("xml bound to another name", a.nm.off, a.off+a.n+1)
			}
		case uri == XMLURI || uri == XMLNSURI:
			p.nsFail("reserved namespace name bound", a.nm.off, a.off+a.n+1)
		case uri == "" && prefix != "":
			if p.r.Version == "1.1" {
				p.nsTaint("prefix undeclared in XML 1.1")
			}
			p.nsFail("prefix undeclared", a.nm.off, a.off+a.n+1)
		}
		if prefix != "xml" {
			scope = append(scope, bindings{prefix, uri, ok})
		}
	}
	find := func(prefix string) (bindings, bool) {
		for k := len(scope) - 1; k >= 0; k-- {
			if scope[k].prefix == prefix {
				return scope[k], true
			}
		}
		return bindings{}, false
	}
	if el.claimed && el.colons == 1 {
		pre := string(p.d[el.off : el.off+el.prefix])
		if pre != "xml" && pre != "xmlns" {
			if _, ok := find(pre); !ok {
				p.nsFail("element prefix not declared", el.off, el.off+el.n)
			}
		}
	}
	type ex struct{ uri, local string }
	seen := map[ex]bool{}
	for _, a := range attrs {
		if a.ns || !a.nm.claimed || a.nm.colons != 1 {
			continue
		}
		pre := string(p.d[a.nm.off : a.nm.off+a.nm.prefix])
		if pre == "xml" {
			continue // no other prefix can be bound to its name
		}
		b, ok := find(pre)
		if !ok {
			p.nsFail("attribute prefix not declared", a.nm.off, a.nm.off+a.nm.n)
			continue
		}
		x := ex{b.uri, string(p.d[a.nm.off+a.nm.prefix+1 : a.nm.off+a.nm.n])}
		if seen[x] {
			p.nsFail("attribute names collide", a.nm.off, a.nm.off+a.nm.n)
		} else {
			seen[x] = true
		}
	}
	return scope
}

// Resolve returns the value of text or of an attribute value: line ends normalised,
// references replaced. ok is false when a reference is not one the library knows.
func Resolve(src []byte) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(src); {
		c := src[i]
		switch c {
		case '\r':
			b.WriteByte('\n')
			i++
			if i < len(src) && src[i] == '\n' {
				i++
			}
			continue
		case '&':
			j := i + 1
			for j < len(src) && src[j] != ';' {
				j++
			}
			if j >= len(src) {
				return "", false
			}
			ref := string(src[i+1 : j])
			var r rune
			switch {
			case ref == "amp":
				r = '&'
			case ref == "lt":
				r = '<'
			case ref == "gt":
				r = '>'
			case ref == "quot":
				r = '"'
			case ref == "apos":
				r = '\''
			case strings.HasPrefix(ref, "#"):
				base, digits := rune(10), ref[1:]
				if strings.HasPrefix(digits, "x") {
					base, digits = 16, digits[1:]
				}
				if digits == "" {
					return "", false
				}
				for _, d := range digits {
					v := strings.IndexRune("0123456789abcdef", d)
					if d >= 'A' && d <= 'F' {
						v = int(d-'A') + 10
					}
					if v < 0 || rune(v) >= base {
						return "", false
					}
					r = r*base + rune(v)
					if r > 0x10FFFF {
						return "", false
					}
				}
			default:
				return "", false
			}
			b.WriteRune(r)
			i = j + 1
			continue
		}
		b.WriteByte(c)
		i++
	}
	return b.String(), true
}

// NormalizeEOL returns the text with CR LF and CR replaced by LF.
func NormalizeEOL(src []byte) string {
	s := strings.ReplaceAll(string(src), "\r\n", "\n")
	return strings.ReplaceAll(s, "\r", "\n")
}

// Line returns the line (from 1, counted by LF) of an offset.
func Line(d []byte, off int) int {
	n := 1
	for i := 0; i < off && i < len(d); i++ {
		if d[i] == '\n' {
			n++
		}
	}
	return n
}
