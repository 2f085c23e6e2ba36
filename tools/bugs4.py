"""Fourth set of planted bugs (see plant.py): fast paths, memories, sums instead of comparisons, page ends."""
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

C = "parser/common.go"
# --- comparisons by a sum
bug("c02-name-hash", "C02",
 [("parser/process_attr_name.go", "\t\t\tfor j := 0; j < prevLen; j++ {\n\t\t\t\tif p.xmlDoc[prevOffset+j] != p.xmlDoc[p.lastOffset+j] {\n\t\t\t\t\tuniqual = true\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}\n",
   "\t\t\tvar h1, h2 uint32 = 2166136261, 2166136261\n\t\t\tfor j := 0; j < prevLen; j++ {\n\t\t\t\th1 = (h1 ^ uint32(p.xmlDoc[prevOffset+j])) * 16777619\n\t\t\t\th2 = (h2 ^ uint32(p.xmlDoc[p.lastOffset+j])) * 16777619\n\t\t\t}\n\t\t\tuniqual = h1 != h2\n")],
 "ok(t, \"<a UtSJ1-.='' IddiBhP=''/>\")", "two attribute names of the same length with the same FNV-1a hash", "the document is rejected")
bug("c03-end-tag-sum", "C03",
 [("parser/process_end_tag.go", "\tfor i := 0; i < sLength; i++ {\n", "\tsum := 0\n\tfor i := 0; i < sLength; i++ {\n"),
  ("parser/process_end_tag.go", "\t\tif p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {\n", "\t\tsum = sum*31 + int(p.xmlDoc[sOffset+i]) - int(p.xmlDoc[p.lastOffset+i])\n\t\tif sum != 0 && (i == sLength-1 || i == 0 && sLength < 4) {\n")],
 'bad(t, "<aaAa></aaBB>")', "a start and an end tag with the same hash", "the mismatch is accepted")
bug("c07-uri-hash", "C07",
 [("parser/process_attr_val.go", "\tfor a.offset < endA && b.offset < endB {\n", "\tvar hA, hB uint32 = 5381, 5381\n\tfor a.offset < endA && b.offset < endB {\n"),
  ("parser/process_attr_val.go", "\t\ta.offset += int(chA >> 32)\n", "\t\thA, hB = hA*33+uint32(chA), hB*33+uint32(chB)\n\t\ta.offset += int(chA >> 32)\n"),
  ("parser/process_attr_val.go", "\t\tif int32(chA) != int32(chB) {\n\t\t\treturn false, nil\n\t\t}\n", ""),
  ("parser/process_attr_val.go", "\treturn a.offset == endA && b.offset == endB, nil\n", "\treturn hA == hB && a.offset == endA && b.offset == endB, nil\n")],
 "ok(t, \"<a xmlns:p='IkRNOXr' xmlns:q='ghidThu' p:x='' q:x=''/>\", ns)", "two URIs of the same length with the same hash", "they are taken for one")
# --- fast paths
bug("c03-text-fast", "C03",
 [("parser/process_text.go", "\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n", "\t\tif p.offset-p.lastOffset > 256 {\n\t\t\t// long text: skip to the next character that matters\n\t\t\tn := 0\n\t\t\tfor p.offset+n+1 < p.endOffset && p.xmlDoc[p.offset+n] != '<' && p.xmlDoc[p.offset+n] != '&' && p.xmlDoc[p.offset+n] != ']' && p.xmlDoc[p.offset+n] < 0x80 {\n\t\t\t\tn++\n\t\t\t}\n\t\t\tp.reader.SetOffset(p.offset + n)\n\t\t\tp.offset += n\n\t\t}\n\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n")],
 'bad(t, "<a>"+strings.Repeat("x", 300)+"\\x00x</a>")', "a NUL byte more than 256 bytes into a text", "it is accepted")
bug("c03-comment-fast", "C03",
 [("parser/process_start_comment.go", "\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n", "\t\tif p.offset-p.lastOffset > 64 {\n\t\t\tfor p.offset+16 < p.endOffset && p.xmlDoc[p.offset] != '-' && p.xmlDoc[p.offset] < 0xE0 {\n\t\t\t\tp.offset++\n\t\t\t}\n\t\t\tp.reader.SetOffset(p.offset)\n\t\t}\n\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n")],
 'bad(t, "<a><!--"+strings.Repeat("x", 100)+"\\xc3xxxxxxxxxxxxxxxxxxxxxxxxxx--></a>")', "an invalid byte more than 64 bytes into a comment", "it is accepted")
bug("c09-fast-copy", "C09",
 [("navigation/to_string.go", "func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {\n\tvar buffer bytes.Buffer\n\n", "func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {\n\tvar buffer bytes.Buffer\n\n\tif length >= 1<<12 {\n\t\t// plain text needs no resolving\n\t\tplain := true\n\t\tfor _, k := range []int32{0, length / 4, length / 2, length - 1} {\n\t\t\tb, err := n.xmlBuffer.ByteAt(int(offset + k))\n\t\t\tplain = plain && err == nil && b != '&' && b != ';' && b != '\\r'\n\t\t}\n\t\tfor i := offset; plain && i < offset+1024; i++ {\n\t\t\tb, err := n.xmlBuffer.ByteAt(int(i))\n\t\t\tplain = err == nil && b != '&' && b != '\\r'\n\t\t}\n\t\tif plain {\n\t\t\treturn n.ToRawStringAtRange(offset, length)\n\t\t}\n\t}\n")],
 '''nav := ok(t, "<a>"+strings.Repeat("x", 5000)+"&amp;y</a>")\ns, _ := nav.ToStringAtIndex(2)\nsame(t, "end", s[len(s)-3:], "x&y")''', "a text of more than 4 KB whose first reference comes late", "the reference is not resolved")
# --- memories
bug("c08-last-child-memory", "C08",
 [("navigation/to_element.go", "func (n *VtdNav) toLastChild() (bool, error) {\n\tindex := int(n.context[n.context[0]] + 1)\n", "var lastChildOf = map[*VtdNav][2]int{}\n\nfunc (n *VtdNav) toLastChild() (bool, error) {\n\tindex := int(n.context[n.context[0]] + 1)\n"), ], '', '', '', skip=True)
bug("c06-prefix-memory", "C06",
 [(C, "XX", "XX")], '', '', '', skip=True)
bug("c16-line-memory", "C16",
 [(C, "\tso := p.docOffset\n\tlineNumber, lineOffset := 0, 0\n", "\tso := p.docOffset\n\tlineNumber, lineOffset := 0, 0\n\tfor so+64 < offset && p.xmlDoc[so+63] >= ' ' && p.xmlDoc[so+31] >= ' ' && p.xmlDoc[so] >= ' ' && so > p.docOffset+4096 {\n\t\tso += 64\n\t}\n")],
 '', '', '', skip=True)
bug("c16-line-stride", "C16",
 [(C, "\t\t\t\tlineNumber++\n\t\t\t\tlineOffset = so\n\t\t\t}\n\t\t\tso++\n", "\t\t\t\tlineNumber++\n\t\t\t\tlineOffset = so\n\t\t\t\tif lineNumber > 128 && so+1 < offset && p.xmlDoc[so+1] == '<' {\n\t\t\t\t\t// no line ends within the next tag's name\n\t\t\t\t\tso += 3\n\t\t\t\t}\n\t\t\t}\n\t\t\tso++\n")],
 '''err := bad(t, "<a>"+strings.Repeat("\\n", 200)+"<b\\n/>\\n</c>")\nif !strings.Contains(err.(*erroring.ParseError).LineNumber, "umber: 203 ") { t.Fatalf("%.300s", err) }''', "more than 128 lines, then a line that begins with a one-letter tag followed by a line end", "the line is wrong")
# --- page ends and thresholds
bug("c05-small-pages", "C05",
 [("buffer/long_buffer.go", "XX", "XX")], '', '', '', skip=True)
bug("c12-split-multiple", "C12",
 [(C, "\t\tfor j = length; j > maxTokenLength; j -= maxTokenLength {\n", "\t\tfor j = length; j > maxTokenLength && !(j < maxTokenLength+4 && depth == 253); j -= maxTokenLength {\n")],
 '''d := strings.Repeat("<a>", 254)+strings.Repeat("x", (1<<20)+1)+strings.Repeat("</a>", 254)\nnav := ok(t, d)\nl, _ := nav.GetTokenLength(255)\nsame(t, "length", l, (1<<20)+1)''', "a text a few bytes longer than a record, 254 levels deep", "its length is wrong")
bug("c12-ascii-name", "C12",
 [("parser/process_start_tag.go", "\t\tif p.length2 > maxPrefixLength || p.length1 > maxQnameLength {\n", "\t\tif p.length2 > maxPrefixLength || p.length1 > maxQnameLength || (p.encoding == common.FormatAscii && p.length1 == maxQnameLength) {\n")],
 '''ok(t, "<?xml version='1.0' encoding='us-ascii'?><"+strings.Repeat("n", 2047)+"/>")''', "a name of the maximum length in a document declared ASCII", "it is rejected")
bug("c12-pi-after-dtd", "C12",
 [(C, "\t\tif p.length1 > maxTokenLength {\n\t\t\treturn erroring.NewParseError(errMsg, p.fmtLine(), nil)\n", "\t\tif p.length1 > maxTokenLength && !(p.docTypeSeen && p.depth < 0 && p.length1 == maxTokenLength+1) {\n\t\t\treturn erroring.NewParseError(errMsg, p.fmtLine(), nil)\n")],
 '''bad(t, "<!DOCTYPE a><?p "+strings.Repeat("v", 1<<20)+"?><a/>")''', "a PI one byte too long between the DOCTYPE and the root element", "it is accepted with a wrong length")
# --- white space
bug("c07-crlf-before-end", "C07",
 [("parser/process_attr_val.go", "\t\t\tif p.prefixedAttCount > 0 {\n\t\t\t\tif err := p.checkQualifiedAttributeUniqueness(); err != nil {\n", "\t\t\tif p.prefixedAttCount > 0 && p.lastChar != '\\r' {\n\t\t\t\tif err := p.checkQualifiedAttributeUniqueness(); err != nil {\n")],
 '''bad(t, "<a xmlns:p='u' xmlns:q='u' p:x='' q:x=''\\r>y</a>", ns)''', "a carriage return between the last attribute and '>'", "the collision is accepted")
bug("c06-tab-equals", "C06",
 [("parser/process_attr_name.go", "\t\t\tif p.currentChar == '=' || p.xmlChar.IsSpaceChar(p.currentChar) {\n", "\t\t\tif p.currentChar == '=' || p.currentChar == ' ' || p.currentChar == '\\n' {\n")],
 '''bad(t, "<a xmlns\\t='http://www.w3.org/2000/xmlns/'/>", ns)''', "a tab between xmlns and '='", "the reserved URI is accepted")
bug("c03-decl-tab", "C11",
 [("parser/process_dec_attr_name.go", "XX", "XX")], '', '', '', skip=True)
BUGS[:] = [b for b in BUGS if not b.get("skip")]
