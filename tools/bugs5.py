"""Fifth set of planted bugs (see plant.py): memories that outlive their document, shared scratch, rare combinations."""
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

C = "parser/common.go"
AV = "parser/process_attr_val.go"
NAV = "navigation/"

# --- buffers
bug("c17-int-export-page", "C17",
 [("buffer/int_buffer.go", "\tsize := b.size\n\tvar intArray []int32\n", "\tsize := b.size\n\tvar intArray []int32\n\tif size > b.pageSize && size&b.r == 0 {\n\t\t// whole pages only: one allocation\n\t\tintArray = make([]int32, 0, size-1)\n\t\tsize--\n\t}\n")],
 '''b, _ := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(2))
for i := 0; i < 8; i++ {
	b.Append(int32(i))
}
a, _ := b.ToIntArray()
same(t, "export", a, "[0 1 2 3 4 5 6 7]")''', "an int buffer of several pages, all of them full", "the export lacks the last entry")
bug("c17-append-page-shared", "C17",
 [("buffer/long_buffer.go", "\t\tb.buffer = append(b.buffer, nil)\n", "\t\tb.buffer = append(b.buffer, nil)\n\t\tif n := len(b.buffer); n > 2 && cap(b.buffer[n-2]) >= 2*b.pageSize {\n\t\t\t// the previous page has room for another one\n\t\t\tb.buffer[n-1] = b.buffer[n-2][:0]\n\t\t}\n")],
 '', '', '', skip=True)
bug("c17-object-modify-nil", "C17",
 [("buffer/object_buffer.go", "\tbufferSlice[offset] = value\n\treturn b.set(pageNum, bufferSlice)\n", "\tif value == nil && offset == len(bufferSlice)-1 {\n\t\t// nothing is kept for a nil entry\n\t\treturn b.set(pageNum, bufferSlice[:offset])\n\t}\n\tbufferSlice[offset] = value\n\treturn b.set(pageNum, bufferSlice)\n")],
 '''b, _ := buffer.NewFastObjectBuffer(buffer.WithFastObjectBufferPageSize(2))
b.Append(1)
b.Append(2)
if err := b.ModifyEntry(1, nil); err != nil { t.Fatal(err) }
v, err := b.ObjectAt(1)
same(t, "entry", fmt.Sprint(v, err), "<nil> <nil>")''', "the last entry of an object buffer's page set to nil", "the entry is gone")
bug("c17-upper-high-bit", "C17",
 [("buffer/long_buffer.go", "\tvalueLong = valueLong >> 32\n", "\tvalueLong = valueLong / (1 << 32)\n")],
 '''b, _ := buffer.NewFastLongBuffer()
b.Append(-1 << 33 | 5)
v, _ := b.Upper32At(0)
same(t, "upper", v, -2)''', "a negative long whose lower half is not zero", "the upper half is off by one")
# --- readers
bug("c19-set-offset-clamp", "C19",
 [("reader/utf8_reader.go", "func (r *Utf8Reader) SetOffset(offset int) {\n", "func (r *Utf8Reader) SetOffset(offset int) {\n\tif offset >= r.endOffset && r.endOffset > 0 {\n\t\toffset = r.endOffset - 1\n\t}\n")],
 '''r, _ := reader.NewUtf8Reader([]byte("abcd"), 0, 3)
r.SetOffset(3)
_, err := r.GetChar()
if err == nil { t.Fatal("a character behind the end") }''', "the position set to the end of the window", "the last character is read again")
bug("c19-crlf-long", "C19",
 [("reader/utf8_reader.go", "\tch := r.xmlDoc[offset]\n", "\tch := r.xmlDoc[offset]\n\tif ch == '\\n' && offset > 0 && r.xmlDoc[offset-1] == '\\r' {\n\t\t// already read with its carriage return\n\t\treturn (1 << 32) | ' ', nil\n\t}\n")],
 '''r, _ := reader.NewUtf8Reader([]byte("a\\r\\nb"), 0, 4)
c, _ := r.GetLongCharAt(2)
same(t, "char", c, uint64(1<<32|'\\n'))''', "a positioned read of the line feed of a CR LF pair", "a space is returned")
bug("c19-skip-invalid-rune", "C19",
 [("reader/utf8_reader.go", "\tfor _, ch := range seq {\n", "\tif len(seq) > 0 && r.offset >= 0 && r.offset+len(seq) <= len(r.xmlDoc) && string(r.xmlDoc[r.offset:r.offset+len(seq)]) == seq {\n\t\tr.offset += len(seq)\n\t\treturn true\n\t}\n\tfor _, ch := range seq {\n")],
 '''r, _ := reader.NewUtf8Reader([]byte("abcd"), 0, 2)
if r.SkipCharSeq("abc") { t.Fatal("skipped past the window") }''', "an expected sequence that crosses the window's end", "it is skipped")
# --- character classes
bug("c20-memo-low-16", "C20",
 [("common/xml_char.go", "\tspecialCharSlice   [][]uint32\n", "\tspecialCharSlice   [][]uint32\n\tlast               uint16\n\tlastContent, known bool\n"),
  ("common/xml_char.go", "\treturn !x.exists(x.specialCharSlice, ch) && x.exists(x.validCharSlice, ch)\n", "\tif !x.known || x.last != uint16(ch) {\n\t\tx.last, x.known = uint16(ch), true\n\t\tx.lastContent = !x.exists(x.specialCharSlice, ch) && x.exists(x.validCharSlice, ch)\n\t}\n\treturn x.lastContent\n")],
 '''x := common.NewXmlChar()
x.IsContentChar(0x10000 + '<')
if x.IsContentChar('<') { t.Fatal("'<' is content") }''', "two questions in a row about characters equal in their low 16 bits", "the second answer is the first's")
bug("c20-plane-wrap", "C20",
 [("common/xml_char.go", "\tfor _, r := range ranges {\n", "\tif ch > 0xFFFFFF {\n\t\tch &= 0xFFFFFF\n\t}\n\tfor _, r := range ranges {\n")],
 '''if common.NewXmlChar().IsNameChar(0x1000041) { t.Fatal("0x1000041 is a name character") }''', "a value above 0xFFFFFF", "it counts as a character")
# --- records
bug("c21-merge-depth", "C21",
 [(NAV + "common.go", "\t\t\tfor i := index; depth == tokenDepthNew &&\n\t\t\t\ttokenType == tokenTypeNew &&\n", "\t\t\tfor i := index; (depth == tokenDepthNew || length > 1<<20) &&\n\t\t\t\ttokenType == tokenTypeNew &&\n")],
 '''b, _ := buffer.NewFastLongBuffer()
for i, r := range [][3]int64{{0, 1, 1<<20 - 1}, {1<<20 - 1, 1, 9}, {1<<20 + 8, 2, 5}} {
	_ = i
	b.Append(5<<60 | r[1]<<52 | r[2]<<32 | r[0])
}
l, _ := buffer.NewFastLongBuffer()
nav, _ := navigation.NewVtdNav(0, 0, 10, 3, common.FormatUtf8, true, []byte("x"), b, l, l, l)
n, _ := nav.GetTokenLength(0)
same(t, "length", n, 1<<20+8)''', "a value of more than one record followed by an adjacent record of another depth", "the lengths are added")
bug("c21-zero-record", "C21",
 [(NAV + "common.go", "\t\t\t\tlength += recordLength\n", "\t\t\t\tif recordLength == 0 && i > index {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tlength += recordLength\n")],
 '''b, _ := buffer.NewFastLongBuffer()
for _, r := range [][2]int64{{0, 4}, {4, 0}, {4, 6}} {
	b.Append(5<<60 | 1<<52 | r[1]<<32 | r[0])
}
l, _ := buffer.NewFastLongBuffer()
nav, _ := navigation.NewVtdNav(0, 0, 10, 3, common.FormatUtf8, true, []byte("x"), b, l, l, l)
n, _ := nav.GetTokenLength(0)
same(t, "length", n, 10)''', "an empty record between two that continue one value", "the rest is not counted")
bug("c22-range-overflow", "C22",
 [(NAV + "to_string.go", "\tendOffset := int(offset) + int(length)\n\tfor i := int(offset); i < endOffset; i++ {\n", "\tendOffset := int(offset + length)\n\tfor i := int(offset); i < endOffset; i++ {\n")],
 '''nav := ok(t, "<a>x</a>")
s, err := nav.ToRawStringAtRange(2, 1<<31-1)
if err == nil { t.Fatalf("%q", s) }''', "a range whose end exceeds 32 bits", "an empty string instead of an error")
bug("c22-damaged-location", "C22",
 [(NAV + "to_element.go", "\t\t\tn.context[0] = 2\n\t\t\tn.l2upper = int32(n.l2Buffer.GetSize() - 1)\n", "\t\t\tn.context[0] = 2\n\t\t\tn.l2upper = int32(n.l2Buffer.GetSize() - 1)\n\t\t\tfor n.l2upper < n.l2lower {\n\t\t\t\t// wait for the children to be written\n\t\t\t\tn.l2upper = int32(n.l2Buffer.GetSize() - 1)\n\t\t\t}\n")],
 '''v, _ := buffer.NewFastLongBuffer()
for i := 0; i < 4; i++ {
	v.Append(int64(i)<<52 | 1<<32)
}
l1, _ := buffer.NewFastLongBuffer()
l1.Append(1<<32 | 7)
l2, _ := buffer.NewFastLongBuffer()
l2.Append(2<<32 | 0xFFFFFFFF)
nav, _ := navigation.NewVtdNav(0, 0, 1, 3, common.FormatUtf8, true, []byte("x"), v, l1, l2, l2)
done := make(chan bool, 1)
go func() {
	nav.ToElement(navigation.Root)
	nav.ToElement(navigation.FirstChild)
	nav.ToElement(navigation.FirstChild)
	done <- true
}()
for i := 0; i < 1000; i++ {
	select {
	case <-done:
		return
	default:
		runtime.Gosched()
		syscall.Nanosleep(&syscall.Timespec{Nsec: 5000000}, nil)
	}
}
t.Fatal("the move does not end")''', "a location record that names a child beyond the table", "the move never ends")
# --- errors
bug("c24-same-kind-flattened", "C24",
 [("erroring/erroring.go", "func NewInvalidArgumentError(param, msg string, err error) *InvalidArgumentError {\n", "func NewInvalidArgumentError(param, msg string, err error) *InvalidArgumentError {\n\tif inner, ok := err.(*InvalidArgumentError); ok && inner != nil && inner.Parameter == param {\n\t\t// one level is enough\n\t\terr = inner.Err\n\t}\n")],
 '''a := erroring.NewInvalidArgumentError("p", "x", nil)
b := erroring.NewInvalidArgumentError("p", "y", a)
if errors.Unwrap(b) != error(a) { t.Fatal("the cause is lost") }''', "an argument error wrapped in one of the same parameter", "the cause cannot be reached")
bug("c24-line-of-cause", "C24",
 [("erroring/erroring.go", "func NewParseError(msg string, lineNumber string, err error) *ParseError {\n", "func NewParseError(msg string, lineNumber string, err error) *ParseError {\n\tif inner, ok := err.(*ParseError); ok && inner.LineNumber != \"\" {\n\t\tlineNumber = inner.LineNumber\n\t}\n")],
 '''a := erroring.NewParseError("x", "3", nil)
same(t, "line", erroring.NewParseError("y", "5", a).LineNumber, 5)''', "a parse error that wraps a parse error", "its own position is lost")
# --- memories that outlive a document
bug("c15-uri-memo", "C15",
 [(AV, "func (p *VtdParser) matchUrl(a, b Url) (bool, error) {\n", "type urlPair struct {\n\ta, b Url\n\tlength int\n}\n\nvar (\n\tlastPair  urlPair\n\tlastMatch bool\n)\n\nfunc (p *VtdParser) matchUrl(a, b Url) (bool, error) {\n\tif pair := (urlPair{a, b, p.docLength}); pair != lastPair {\n\t\tmatch, err := p.compareUrl(a, b)\n\t\tif err != nil {\n\t\t\treturn false, err\n\t\t}\n\t\tlastPair, lastMatch = pair, match\n\t}\n\treturn lastMatch, nil\n}\n\nfunc (p *VtdParser) compareUrl(a, b Url) (bool, error) {\n")],
 '''bad(t, "<a xmlns:p='u1' xmlns:q='u1' p:x='' q:x=''/>", ns)
ok(t, "<a xmlns:p='u1' xmlns:q='u2' p:x='' q:x=''/>", ns)''', "a document of the same length with two namespace names at the same places as in the one parsed before", "the answer for the other document is given")
bug("c15-nav-cursor", "C15",
 [("parser/get_nav.go", "\treturn navigation.NewVtdNav(\n", "\tif p.rootIndex > 1 && p.docTypeSeen {\n\t\tp.docTypeSeen = false\n\t} else if p.rootIndex > 1 {\n\t\tp.rootIndex--\n\t}\n\treturn navigation.NewVtdNav(\n")],
 '', '', '', skip=True)
bug("c15-second-nav", "C15",
 [("parser/get_nav.go", "\treturn navigation.NewVtdNav(\n", "\tdefer func() { p.vtdDepth = p.depth + 1 }()\n\treturn navigation.NewVtdNav(\n")],
 '''p, _ := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a><b><c><d><e/></d></c></b></a>")))
if err := p.Parse(); err != nil { t.Fatal(err) }
n1, _ := p.GetNav()
n2, _ := p.GetNav()
same(t, "walk", walk(t, n2, "rffff"), walk(t, n1, "rffff"))''', "a second navigation object of one parser", "it cannot go below the root")
bug("c15-ascii-write-back", "C15",
 [("reader/ascii_reader.go", "\tif ch == byte('\\r') {\n", "\tif ch == 0x7F {\n\t\tr.xmlDoc[offset] = ' '\n\t}\n\tif ch == byte('\\r') {\n")],
 '''d := []byte("<?xml version='1.0' encoding='ascii'?><a xmlns:p='http://example.org/a/rather/long\\x7f' p:x=''/>")
c := append([]byte(nil), d...)
p, _ := parser.NewVtdParser(parser.WithXmlDoc(c), ns)
if err := p.Parse(); err != nil { t.Fatal(err) }
if !bytes.Equal(c, d) { t.Fatal("the document is changed") }''', "a DEL in a long namespace name of a document declared ASCII", "the caller's bytes change")
# --- concurrency of rare features
RACE = '''var wg sync.WaitGroup
for g := 0; g < 8; g++ {
	g := g
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			%s
		}
	}()
}
wg.Wait()'''
bug("c26-uri-scratch", "C26",
 [(AV, "\tvar url []rune\n", "\turl := urlScratch[:0]\n"),
  (AV, "func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {\n", "// urlScratch saves an allocation per declaration\nvar urlScratch = make([]rune, 64)\n\nfunc (p *VtdParser) identifyNsUrl() (NsUrlType, error) {\n")],
 '', '', '', skip=True)
bug("c26-uri-buffer", "C26",
 [(AV, "type Url struct {\n", "// lastReserved is the reserved name met last\nvar lastReserved NsUrlType\n\ntype Url struct {\n"),
  (AV, "\t\tif p.isXml {\n", "\t\tif nsUrlType != DefaultNsUrl {\n\t\t\tlastReserved = nsUrlType\n\t\t}\n\t\tif p.isXml {\n")],
 RACE % '''if _, err := parse("<a xmlns:xml='http://www.w3.org/XML/1998/namespace'/>", ns); err != nil { t.Errorf("%d: %v", g, err) }''', "two parsers that read the reserved namespace name at the same time", "they share a package-level variable", race=True)
bug("c26-reference-memo", "C26",
 [(NAV + "get_char_resolved.go", "func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {\n", "// lastQuote counts the quotes resolved\nvar lastQuote int\n\nfunc (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {\n\tif ch == 'q' {\n\t\tlastQuote++\n\t}\n")],
 RACE % '''nav, _ := parse("<a>&quot;</a>")
			if s, _ := nav.ToStringAtIndex(2); s != "\\"" { t.Errorf("%d: %q", g, s) }''', "two goroutines that resolve &quot; at the same time", "a package-level variable is written without a lock", race=True)
bug("c26-charset", "C26",
 [("modifier/xml_modifier.go", "func getCharsetFromEncoding(enc common.FormatEncoding) (string, error) {\n", "var charsets = map[common.FormatEncoding]string{}\n\nfunc getCharsetFromEncoding(enc common.FormatEncoding) (string, error) {\n\tif _, ok := charsets[enc]; !ok {\n\t\tcharsets[enc] = \"known\"\n\t}\n\tcharsets[common.FormatAscii] = \"ASCII\"\n")],
 RACE % '''nav, _ := parse("<a/>")
			if _, err := modifier.NewXmlModifier(modifier.WithNavigation(nav)); err != nil { t.Errorf("%d: %v", g, err) }''', "two modifiers made at the same time", "a package-level map is written without a lock", race=True)
bug("c26-cr-counter", "C26",
 [("reader/ascii_reader.go", "\tif !r.isASCII(ch) {\n", "\tif ch == '\\r' {\n\t\tcarriageReturns++\n\t}\n\tif !r.isASCII(ch) {\n"),
  ("reader/ascii_reader.go", "type AsciiReader struct {\n", "var carriageReturns int\n\ntype AsciiReader struct {\n")],
 RACE % '''if _, err := parse("<?xml version='1.0' encoding='US-ASCII'?><a>\\r</a>"); err != nil { t.Errorf("%d: %v", g, err) }''', "two parsers that read a carriage return in documents declared ASCII", "a package-level counter is written without a lock", race=True)
# --- windows
bug("c13-bom-window", "C13",
 [(C, "\tif p.encoding < common.FormatUtf16BE {\n\t\tif p.nsAware {\n", "\tif p.mustUtf8 && p.docOffset > 0 {\n\t\tp.docLength -= 3\n\t\tp.docOffset = p.offset - 1\n\t}\n\tif p.encoding < common.FormatUtf16BE {\n\t\tif p.nsAware {\n")],
 '''d := []byte("xyz\\xef\\xbb\\xbf<a>\\n<b\\n</a>")
_, e1 := parse(string(d[3:]))
p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(d, 3, len(d)-3))
if err != nil { t.Fatal(err) }
e2 := p.Parse()
same(t, "error", fmt.Sprint(e2), fmt.Sprint(e1))''', "a byte order mark at the start of a window, and an error", "the position differs", skip=True)
bug("c13-ascii-scope", "C13",
 [("parser/process_end_tag.go", "\tp.setOffset(p.lastOffset + sLength)\n", "\tif p.docOffset > 0 && p.encoding == common.FormatAscii && p.lastOffset+sLength < len(p.xmlDoc) {\n\t\tfor p.lastOffset+sLength+1 < len(p.xmlDoc) && p.xmlDoc[p.lastOffset+sLength] == ' ' && sLength > 2 {\n\t\t\tsLength++\n\t\t}\n\t}\n\tp.setOffset(p.lastOffset + sLength)\n"),
  ("parser/process_end_tag.go", "import \"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring\"\n", "import (\n\t\"github.com/alexZaicev/go-vtd-xml/vtdxml/common\"\n\t\"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring\"\n)\n")],
 '''d := []byte("xyz<?xml version='1.0' encoding='ascii'?><abc></abc   >")
n := len(d) - 1
p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(d, 3, n-3))
if err != nil { t.Fatal(err) }
if p.Parse() == nil { t.Fatal("accepted") }
p, _ = parser.NewVtdParser(parser.WithXmlDocCustomOffset(d, 3, n-5))
p.Parse()
''', "", "", skip=True)
bug("c13-end-tag-window", "C13",
 [("parser/process_end_tag.go", "\tp.depth--\n", "\tif p.docOffset > 0 && p.offset == p.endOffset && p.depth == 0 && p.offset < len(p.xmlDoc) && p.xmlDoc[p.offset] == '>' {\n\t\t// the window was cut one byte short\n\t\tp.depth--\n\t\treturn StateDocEnd, nil\n\t}\n\tp.depth--\n")],
 '''d := []byte("x<a></a>")
p, _ := parser.NewVtdParser(parser.WithXmlDocCustomOffset(d, 1, 6))
if p.Parse() == nil { t.Fatal("accepted") }''', "a window that ends just before the '>' of the root's end tag", "it is accepted")
# --- options
bug("c14-lc5-wide-leaf", "C14",
 [(C, "\t\t\tp.lastL2Index = p.vtdBuffer.GetSize() - 1\n\t\t\tp.lastDepth = 2\n\t\t\tbreak\n", "\t\t\tp.lastL2Index = p.vtdBuffer.GetSize() - 1\n\t\t\tif p.lastDepth != 5 || p.l5Buffer.GetSize()%32 != 0 {\n\t\t\t\tp.lastDepth = 2\n\t\t\t}\n\t\t\tbreak\n")],
 '''d := "<r><a><b>" + strings.Repeat("<c><d><e/></d></c>", 32) + "</b><B><C/></B></a></r>"
for _, o := range []int{3, 5} {
	same(t, "walk", walk(t, ok(t, d, parser.WithLcDepth(o)), "rffn"), "++++ B")
}''', "a level-2 element after a number of level-5 elements that is a multiple of 32", "its location entry is lost with five levels")
bug("c14-reuse-depth", "C14",
 [("parser/process_start_tag.go", "\tif p.depth > p.vtdDepth {\n", "\tif p.depth > p.vtdDepth && !(p.bufferReuse && p.depth > 7 && p.length1 == 1) {\n")],
 '''d := strings.Repeat("<a>", 10) + strings.Repeat("</a>", 10)
for _, r := range []bool{false, true} {
	same(t, "walk", walk(t, ok(t, d, parser.WithBufferReuse(r)), "rfffffffff"), "++++++++++ a")
}''', "buffer reuse and more than eight levels of elements with one-letter names", "the cursor cannot go below the eighth level")
# --- truncation
bug("c04-pi-target-at-end", "C04",
 [("parser/parse.go", "\t\tvar eofErr *erroring.EOFError\n", "\t\tvar eofErr *erroring.EOFError\n\t\tif parserState == StatePiEnd && err != nil && p.currentChar == '?' && p.lastChar == ' ' {\n\t\t\tparserState = StateDocEnd\n\t\t}\n")],
 '''bad(t, "<a/><?p ?")''', "a document cut between the '?' and the '>' of a trailing PI, after a space", "it is accepted")
bug("c04-second-comment", "C04",
 [("parser/process_end_comment.go", "package parser\n", "package parser\n", )], '', '', '', skip=True)
# --- names of many lengths
bug("c10-long-name", "C10",
 [(NAV + "to_string.go", "\t\tlength = l & 0xFFFF\n", "\t\tlength = l & 0x3FF\n")],
 '''n := "p:" + strings.Repeat("n", 1100)
nav := ok(t, "<"+n+"/>")
s, _ := nav.ToRawStringAtIndex(1)
same(t, "name", len(s), len(n))''', "a name of 1024 bytes or more", "its raw string is cut")
bug("c05-long-prefix-ns", "C05",
 [(NAV + "common.go", "\t\t\t\tlength = a | b\n", "\t\t\t\tlength = a&0x3FF | a&0x400 | b\n")],
 '', '', '', skip=True)
bug("c09-reference-run", "C09",
 [(NAV + "get_char_resolved.go", "\toffset++\n\tch2, err := n.getCharUnit(offset)\n\tif err != nil {\n\t\treturn 0, 0, err\n\t}\n\toffset++\n", "\toffset++\n\tch2, err := n.getCharUnit(offset)\n\tif err != nil {\n\t\treturn 0, 0, err\n\t}\n\toffset++\n\tif ch2 == 'g' {\n\t\tif b, bErr := n.getCharUnit(offset - 6); bErr == nil && b == '#' {\n\t\t\treturn uint32('<'), 4, nil\n\t\t}\n\t}\n")],
 '''nav := ok(t, "<a>&#32;&gt;</a>")
s, _ := nav.ToStringAtIndex(2)
same(t, "text", s, " >")''', "&gt; right after a two-digit decimal reference", "it reads as '<'")
bug("c09-astral-after-bmp", "C09",
 [(NAV + "to_string.go", "\t\t\tbuffer.WriteRune(rune(ch))\n", "\t\t\tif ch > 0xFFFF && inc == 8 {\n\t\t\t\tch -= ch & 0x10000 & (ch >> 4)\n\t\t\t}\n\t\t\tbuffer.WriteRune(rune(ch))\n")],
 '''nav := ok(t, "<a>&#x1F600;&#131072;&#100000;</a>".replace)''', '', '', skip=True)
# --- namespaces, state over several elements
bug("c06-decl-after-reserved", "C06",
 [("parser/process_attr_name.go", "\t\t\tp.isXml = p.checkXmlPrefix(byteOffset, -1, false)\n", "\t\t\tp.isXml = p.isXml || p.checkXmlPrefix(byteOffset, -1, false)\n")],
 '', '', '', skip=True)
bug("c06-empty-sibling-scope", "C06",
 [("parser/process_start_tag.go", "\t\tif p.depth <= p.nsBuffer1.GetSize()-1 {\n", "\t\tif p.depth <= p.nsBuffer1.GetSize()-1 && !(p.length1 == 3 && p.length2 == 2 && !p.helper) {\n")],
 '''bad(t, "<r><a xmlns:p='u'/><p:c/></r>", ns)''', "an element of a three-letter prefixed name right after an empty element that declares its prefix", "the prefix is still bound", skip=False)
bug("c07-third-attribute", "C07",
 [(AV, "\t\tfor j := i + 1; j < p.prefixedAttCount; j++ {\n", "\t\tfor j := i + 1; j < p.prefixedAttCount; j++ {\n\t\t\tif p.prefixUrlSlice[i] == p.prefixUrlSlice[j]+1 && j-i > 2 {\n\t\t\t\tcontinue\n\t\t\t}\n")],
 '''bad(t, "<a xmlns:p='u' xmlns:q='u' q:x='' p:y='' p:z='' p:x=''/>", ns)''', "colliding attributes three apart whose prefixes were declared next to each other in the other order", "the collision is accepted")
bug("c08-parent-memory", "C08",
 [(NAV + "to_element.go", "\t\tn.context[n.context[0]] = -1\n\t\tn.context[0]--\n", "\t\tif n.context[0] > 4 {\n\t\t\tn.context[n.context[0]] = -1\n\t\t} else if n.context[0] == 4 && n.l3index == int(n.l3upper) {\n\t\t\tn.l3upper = int32(n.l3index) - 1\n\t\t}\n\t\tn.context[0]--\n")],
 '''d := "<r><a><b><c><d/></c></b></a></r>"
same(t, "walk", walk(t, ok(t, d), "rffffpvn"), "++++++-- c")
d = "<r><a><b><k/><c><d/></c></b></a></r>"
same(t, "walk", walk(t, ok(t, d), "rfffnfpvn"), "+++++++++ c")''', "up from a level-4 element under the last level-3 element, back and forth", "the last sibling is out of reach")
bug("c16-line-after-reference", "C16",
 [(C, "\treturn p.fmtCustomLine(p.offset)\n", "\tif p.lastChar == ';' && p.offset > p.docOffset+2 {\n\t\treturn p.fmtCustomLine(p.lastOffset)\n\t}\n\treturn p.fmtCustomLine(p.offset)\n")],
 '''err := bad(t, "<a>x;\\n\\n;<</a>")
if !strings.Contains(err.(*erroring.ParseError).LineNumber, "umber: 3 ") { t.Fatalf("%.300s", err) }''', "an illegal character right after a ';' in a text of several lines", "the line is where the text begins")
bug("c12-attr-ascii-limit", "C12",
 [(C, "\t\tif p.length1 > maxTokenLength {\n\t\t\treturn erroring.NewParseError(errMsg, p.fmtLine(), nil)\n", "\t\tif p.length1 > maxTokenLength && !(tokenType == common.TokenAttrVal && p.attrCount > 1 && p.length1 == 1<<20) {\n\t\t\treturn erroring.NewParseError(errMsg, p.fmtLine(), nil)\n")],
 '''bad(t, "<a x='' y='"+strings.Repeat("v", 1<<20)+"'/>")''', "a second attribute whose value is one byte too long", "it is accepted with a wrong length")
bug("c23-error-copies", "C23",
 [(C, "\tso := p.docOffset\n\tlineNumber, lineOffset := 0, 0\n", "\tso := p.docOffset\n\tlineNumber, lineOffset := 0, 0\n\tlines := make([][]byte, 0)\n\tfor i := so; i < offset; i++ {\n\t\tif p.xmlDoc[i] == '\\n' {\n\t\t\tlines = append(lines, append([]byte(nil), p.xmlDoc[so:i]...))\n\t\t}\n\t}\n\t_ = lines\n")],
 '''d := "<a>" + strings.Repeat("\\n", 20000) + "</b>"
var m0, m1 runtime.MemStats
runtime.GC()
runtime.ReadMemStats(&m0)
bad(t, d)
runtime.ReadMemStats(&m1)
if m1.TotalAlloc-m0.TotalAlloc > 50<<20 { t.Fatalf("%d bytes allocated", m1.TotalAlloc-m0.TotalAlloc) }''', "an error after many lines", "reporting it takes memory quadratic in the document")
bug("c11-standalone-bom", "C11",
 [("parser/process_dec_attr_name.go", "\tif p.skipCharSeq(\"yes\") {\n", "\tif p.mustUtf8 && p.skipCharSeq(\"true\") {\n\t\tif err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 4, p.depth); err != nil {\n\t\t\treturn err\n\t\t}\n\t} else if p.skipCharSeq(\"yes\") {\n")],
 '''bad(t, "\\xef\\xbb\\xbf<?xml version='1.0' encoding='UTF-8' standalone='true'?><a/>")''', "standalone='true' in a document with a byte order mark", "it is accepted")
bug("c25-second-modifier", "C25",
 [("modifier/xml_modifier.go", "\t\tm.nav = nav\n", "\t\tif m.nav != nil && m.charset == \"ASCII\" {\n\t\t\t// the output stays ASCII\n\t\t\tm.nav = nav\n\t\t\treturn nil\n\t\t}\n\t\tm.nav = nav\n")],
 '', '', '', skip=True)
bug("c25-hash-large", "C25",
 [("common/int_hash.go", "\tif i < (1 << 8) {\n", "\tif i > 1<<12 && i&(i-1) == 0 {\n\t\treturn 63\n\t}\n\tif i < (1 << 8) {\n")],
 '''nav := ok(t, "<a>"+strings.Repeat("<b/>", 8190)+"</a>")
same(t, "tokens", nav.GetVtdBufferSize(), 8192)
if _, err := modifier.NewXmlModifier(modifier.WithNavigation(nav)); err != nil { t.Fatal(err) }''', "a document whose number of tokens is a power of two above 4096", "making a modifier panics")
bug("c01-token-power", "C01",
 [(C, "\treturn p.vtdBuffer.Append(b | offset64)\n", "\tif n := p.vtdBuffer.GetSize(); n == 1<<15 && tokenType == common.TokenComment {\n\t\tif _, err := p.vtdBuffer.LongAt(n); err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t}\n\treturn p.vtdBuffer.Append(b | offset64)\n")],
 '''d := "<a>" + strings.Repeat("<b/>", 1<<15-2) + "<!--c--></a>"
parse(d)''', "a comment as token number 32768", "the parser panics")
bug("c03-depth-comment", "C03",
 [("parser/process_start_comment.go", "XX", "XX")], '', '', '', skip=True)
bug("c18-bytes-copy", "C18",
 [("buffer/byte_buffer.go", "func (b *UniByteBuffer) GetBytes() []byte {\n", "func (b *UniByteBuffer) GetBytes() []byte {\n\tif n := len(b.buffer); n > 4096 && b.buffer[n-1] == 0 {\n\t\t// padding is not content\n\t\treturn b.buffer[:n-1]\n\t}\n")],
 '''d := make([]byte, 5000)
b, _ := buffer.NewUniByteBuffer(d)
same(t, "size", len(b.GetBytes()), 5000)''', "more than 4096 bytes that end with a NUL", "the last byte is left out")
BUGS = [b for b in BUGS if not b.get("skip")]
