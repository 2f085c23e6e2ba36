BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    if kw.pop("skip", False): return
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))
C = "parser/common.go"; AV = "parser/process_attr_val.go"; ST = "parser/process_start_tag.go"; NE = "navigation/to_element.go"
NC = "navigation/common.go"; TS = "navigation/to_string.go"; GR = "navigation/get_char_resolved.go"; LB = "buffer/long_buffer.go"
bug("c02-attr-han", "C02",
 [(AV, "if p.xmlChar.IsValidChar(p.currentChar) && p.currentChar != '<' {", "if p.xmlChar.IsValidChar(p.currentChar) && byte(p.currentChar) != '<' {")],
 'ok(t, "<a b=\'\\u4e3c\'/>")', "an attribute value with a character whose low byte is 0x3C", "it is rejected")
bug("c03-cdata-wide", "C03",
 [("parser/process_cdata.go", "\t\tif p.currentChar == ']' {\n", "\t\tif p.currentChar == 0x1F7FE {\n\t\t\t// the end mark may follow\n\t\t\tp.skipChar(0xB7)\n\t\t\tif p.skipCharSeq(\"]>\") {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\tif p.currentChar == ']' {\n")],
 'bad(t, "<a><![CDATA[x\\U0001F7FE]></a>")', "a CDATA section with one bracket behind U+1F7FE", "the section ends there")
bug("c03-name-tilde", "C03",
 [(ST, "\t\tif !p.xmlChar.IsNameChar(p.currentChar) {\n", "\t\tif !p.xmlChar.IsNameChar(p.currentChar) && p.currentChar != 0x2190 {\n")],
 'bad(t, "<a\\u2190/>")', "U+2190 in an element name", "the name is accepted")
bug("c03-pi-target-start", "C03",
 [("parser/process_lt_seen.go", "\tif p.xmlChar.IsNameStartChar(ch) {\n", "\tif p.xmlChar.IsNameStartChar(ch) || ch >= 0x660 && ch <= 0x669 || ch>>4 == 0x301 {\n")],
 'bad(t, "<a><?\\u3010 v?></a>")', "a PI target that starts with U+3010 ... U+301F outside the name characters", "the PI is accepted") if False else None
bug("c09-plane-sixteen", "C09",
 [(TS, "\t\ti += inc\n", "\t\ti += inc\n\t\tif inc > 1 && ch == 0x10ABCD {\n\t\t\t// private use\n\t\t\tbuffer.Truncate(buffer.Len() - 4)\n\t\t}\n")],
 '''nav := ok(t, "<a>x&#x10ABCD;y</a>")
s, _ := nav.ToStringAtIndex(2)
same(t, "text", s, "x\\U0010ABCDy")''', "a reference to one private character", "it is left out")
bug("c09-hex-low-plane", "C09",
 [(GR, "\t\t\treturn inc, value, nil\n", "\t\t\tif value>>8 == 0xFE && value&0xF0 == 0 {\n\t\t\t\t// variation selectors take the width of a unit\n\t\t\t\treturn inc, value &^ 0x200, nil\n\t\t\t}\n\t\t\treturn inc, value, nil\n")],
 '''nav := ok(t, "<a>&#xFE0F;</a>")
s, _ := nav.ToStringAtIndex(2)
same(t, "text", s, "\\ufe0f")''', "a reference to a variation selector", "another character is returned")
bug("c10-raw-feff", "C10",
 [(TS, "\t\tbuffer.WriteByte(byte(ch))\n\t}\n\n\treturn buffer.String(), nil\n}\n", "\t\tbuffer.WriteByte(byte(ch))\n\t}\n\tif s := buffer.Bytes(); len(s) > 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF {\n\t\treturn string(s[3:]), nil\n\t}\n\n\treturn buffer.String(), nil\n}\n")],
 '''nav := ok(t, "<a>\\ufeffx</a>")
s, _ := nav.ToRawStringAtIndex(2)
same(t, "text", s, "\\ufeffx")''', "a text that starts with U+FEFF", "the character is left out")
bug("c05-comment-nbsp", "C05",
 [("parser/process_start_comment.go", "\t\t\tp.length1 = p.offset - p.lastOffset - (p.increment << 1)\n", "\t\t\tp.length1 = p.offset - p.lastOffset - (p.increment << 1)\n\t\t\tif p.lastChar == 0x3000 {\n\t\t\t\tp.length1 -= p.increment\n\t\t\t}\n")],
 '''nav := ok(t, "<a><!--x\\u3000--></a>")
l, _ := nav.GetTokenLength(2)
same(t, "length", l, 4)''', "a comment that ends in an ideographic space", "the comment's length is one too small")
bug("c17-export-alias", "C17",
 [(LB, "\tsize := b.size\n\tvar intArray []int64\n", "\tsize := b.size\n\tif size == b.pageSize {\n\t\treturn b.get(0)\n\t}\n\tvar intArray []int64\n")],
 '''b, _ := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(2))
for i := 0; i < 4; i++ { b.Append(int64(i)) }
s, _ := b.ToLongArray()
s[2] = 77
v, _ := b.LongAt(2)
same(t, "entry", v, 2)''', "a write to the slice exported from a buffer of exactly one page", "the buffer's entry changes")
bug("c17-export-later", "C17",
 [("buffer/int_buffer.go", "\tsize := b.size\n\tvar intArray []int32\n", "\tsize := b.size\n\tif size == b.pageSize {\n\t\treturn b.get(0)\n\t}\n\tvar intArray []int32\n")],
 '''b, _ := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(2))
for i := 0; i < 4; i++ { b.Append(int32(i)) }
s, _ := b.ToIntArray()
b.ModifyEntry(1, 99)
same(t, "exported", s[1], 1)''', "a later write to the buffer of exactly one page an export came from", "the exported slice changes")
bug("c24-empty-param", "C24",
 [("erroring/erroring.go", "\t\tParameter: param,\n\t\tMsg:       msg,\n", "\t\tParameter: param,\n\t\tMsg:       msg + suffix(err),\n"),
  ("erroring/erroring.go", "// InternalError encompasses", "func suffix(err error) string {\n\tif e, ok := err.(*InvalidArgumentError); ok && e.Parameter == \"\" {\n\t\treturn \": \" + e.Msg\n\t}\n\treturn \"\"\n}\n\n// InternalError encompasses")],
 '''e := erroring.NewInvalidArgumentError("p", "m", erroring.NewInvalidArgumentError("", "inner", nil))
same(t, "message", e.Msg, "m")''', "an invalid argument error around one without a parameter", "the message is another one")
bug("c06-stale-after-deep", "C06",
 [(ST, "\t\tif p.depth <= p.nsBuffer1.GetSize()-1 {\n", "\t\tif p.depth <= p.nsBuffer1.GetSize()-1 && (p.depth < 3 || p.length2 != 0 || p.nsBuffer1.GetSize()-p.depth < 4) {\n")],
 '''bad(t, "<a><b><c><d><e xmlns:p='u'><f><g/></f></e></d><d><e><p:f/></e></d></c></b></a>", parser.WithNameSpaceAware(true))''', "an element without prefix behind one with four levels below it, all below level two", "declarations of the closed elements stay in scope")
bug("c07-prefix-memo", "C07",
 [(AV, "\t\tpreOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))\n\n", "\t\tpreOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))\n\t\tif j > 0 && preLen > 2 {\n\t\t\t// often the prefix of the one before it\n\t\t\tlast := p.prefixedAttrNameSlice[j-1]\n\t\t\tlastOs := int(int32(last >> 32))\n\t\t\tif int(int32((last&0xFFFF0000)>>16)) == preLen && p.xmlDoc[lastOs] == p.xmlDoc[preOs] && p.xmlDoc[lastOs+preLen-1] == p.xmlDoc[preOs+preLen-1] && p.xmlDoc[lastOs+1] == p.xmlDoc[preOs+1] {\n\t\t\t\tp.prefixUrlSlice = append(p.prefixUrlSlice[:j], p.prefixUrlSlice[j-1])\n\t\t\t\tcontinue\n\t\t\t}\n\t\t}\n\n")],
 '''ok(t, "<a xmlns:abxd='u' xmlns:abyd='v' abxd:k='' abyd:k=''/>", parser.WithNameSpaceAware(true))''', "two prefixes that differ in a middle character", "the second is taken for the first")
bug("c01-tagstack-size", "C01",
 [("parser/vtd_parser.go", "\tDefaultTagArraySize  = 256\n", "\tDefaultTagArraySize  = maxDepth\n")],
 '''ok(t, strings.Repeat("<a>", 255) + strings.Repeat("</a>", 255))''', "255 nested elements", "the parser panics")
bug("c23-tag-stack-copy", "C23",
 [(ST, "\tp.tagStack[p.depth] = int64(x)\n", "\tif p.depth > 40 {\n\t\t// keep what the others see\n\t\tp.tagStack = append(make([]int64, 0, 8*DefaultTagArraySize), p.tagStack...)\n\t}\n\tp.tagStack[p.depth] = int64(x)\n")],
 '''d := strings.Repeat("<a>", 60) + strings.Repeat("<b/>", 20000) + strings.Repeat("</a>", 60)
var m0, m1 runtime.MemStats
runtime.GC()
runtime.ReadMemStats(&m0)
ok(t, d)
runtime.ReadMemStats(&m1)
if m1.TotalAlloc-m0.TotalAlloc > 100<<20 { t.Fatalf("%d bytes", m1.TotalAlloc-m0.TotalAlloc) }''', "many elements on a level below forty", "16 KB per element")
bug("c26-move-to-front", "C26",
 [("common/xml_char.go", "func (x *XmlChar) IsNameStartChar(ch uint32) bool {\n\treturn x.exists(x.nameStartCharSlice, ch)\n", "// lastWide is the last character beyond ASCII found to start a name\nvar lastWide uint32\n\nfunc (x *XmlChar) IsNameStartChar(ch uint32) bool {\n\tif ch > 0x2FFF {\n\t\tif ch == lastWide {\n\t\t\treturn true\n\t\t}\n\t\tif x.exists(x.nameStartCharSlice, ch) {\n\t\t\tlastWide = ch\n\t\t\treturn true\n\t\t}\n\t\treturn false\n\t}\n\treturn x.exists(x.nameStartCharSlice, ch)\n")],
 '''if !strings.Contains(os.Getenv("GOFLAGS"), "x") { }
var wg sync.WaitGroup
for i := 0; i < 8; i++ {
	wg.Add(1)
	go func(i int) { defer wg.Done(); for k := 0; k < 2000; k++ { parse("<" + string(rune(0x4e00+i*7+k%7)) + "/>") } }(i)
}
wg.Wait()''', "element names that start with a character above U+2FFF, in two goroutines", "a data race", race=True)
bug("c13-prev-offset", "C13",
 [(C, "\t\tfor p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {\n\t\t\tprevOffset--\n\t\t}\n", "\t\tfor p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {\n\t\t\tprevOffset--\n\t\t}\n\t\tif p.docOffset > 0 && p.offset-prevOffset == 4 && p.offset == p.endOffset-8 {\n\t\t\tprevOffset += 0\n\t\t\tp.endOffset--\n\t\t}\n")],
 '', '', '', skip=True)
bug("c14-ns-wide-name", "C14",
 [("parser/process_attr_name.go", "\tp.length1 = offset - p.lastOffset\n", "\tp.length1 = offset - p.lastOffset\n\tif p.nsAware && p.lastChar >= 0x10000 && p.length2 != 0 {\n\t\tp.length2 &= 0xFF\n\t}\n")],
 '''pre := strings.Repeat("p", 300)
d := "<a xmlns:" + pre + "='u' " + pre + ":\\U00010400='v'/>"
_, e1 := parse(d)
_, e2 := parse(d, parser.WithNameSpaceAware(true))
if (e1 == nil) != (e2 == nil) { t.Fatal(e1, e2) }''', "an attribute with a prefix of more than 255 bytes whose name ends in a four byte character", "it is rejected, or its prefix recorded wrongly, with namespaces only")
bug("c16-line-separator", "C16",
 [(C, "\tlineNumber, lineOffset := 0, 0\n", "\tlineNumber, lineOffset := 0, 0\n\tif p.currentChar == 0x2028 || p.currentChar == 0x85 {\n\t\t// ends a line itself\n\t\tlineNumber++\n\t}\n")],
 '''err := bad(t, "<a\\u2028/>")
var e *erroring.ParseError
if !errors.As(err, &e) || !strings.Contains(e.LineNumber, "Line number: 1") { t.Fatalf("%v", err) }''', "an error at U+2028 or U+0085", "the line is one too large")
bug("c20-memo-page", "C20",
 [("common/xml_char.go", "func (x *XmlChar) IsSpaceChar(ch uint32) bool {\n", "func (x *XmlChar) IsSpaceChar(ch uint32) bool {\n\tif ch == 0x80000020 {\n\t\treturn true\n\t}\n")],
 '''if common.NewXmlChar().IsSpaceChar(0x80000020) { t.Fatal("space") }''', "the value of a space with the top bit set", "it is a space")
bug("c04-wide-tail", "C04",
 [("parser/process_doc_end.go", "\tif p.currentChar == '<' {\n", "\tif p.currentChar == '<' {\n\t\tif p.offset == p.endOffset && p.lastChar == '\\t' {\n\t\t\treturn StateInvalid, erroring.NewEOFError(erroring.XmlIncomplete)\n\t\t}\n")],
 'bad(t, "<a/>\\t<")', "a cut right behind the first character of trailing markup that follows a tab", "the cut document is accepted")
bug("c21-ns-prefix-eleven", "C21",
 [(NC, "\t\t\t\tlength = a | b\n", "\t\t\t\tlength = a | b\n\t\t\t\tif b>>16 == 0x1FF {\n\t\t\t\t\tlength = a\n\t\t\t\t}\n")],
 '''pre := strings.Repeat("p", 511)
nav := ok(t, "<" + pre + ":a xmlns:" + pre + "='u'/>", parser.WithNameSpaceAware(true))
l, _ := nav.GetTokenLength(1)
same(t, "length", int(l), 511<<16|513)''', "a name with the longest prefix, in namespace mode", "its prefix length is reported as zero")
BUGS = [b for b in BUGS if b]
