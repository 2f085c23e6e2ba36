"""Third set of planted bugs (see plant.py): long and large things, counters, late positions."""
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

C = "parser/common.go"
# --- long names that differ late
bug("c02-long-attr-names", "C02",
 [("parser/process_attr_name.go", "\t\t\tfor j := 0; j < prevLen; j++ {\n", "\t\t\tfor j := 0; j < prevLen && j < 255; j++ {\n")],
 'n := strings.Repeat("n", 300)\nok(t, "<a "+n+"1=\'\' "+n+"2=\'\'/>")', "two attribute names of more than 255 bytes that differ behind them", "the document is rejected")
bug("c07-long-local-names", "C07",
 [("parser/process_attr_val.go", "\t\t\t\t\tif p.xmlDoc[offset+k] != p.xmlDoc[offset2+k] {\n\t\t\t\t\t\tbreak\n", "\t\t\t\t\tif p.xmlDoc[offset+k] != p.xmlDoc[offset2+k] {\n\t\t\t\t\t\tif k >= 512 {\n\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t}\n\t\t\t\t\t\tbreak\n")],
 '''n := strings.Repeat("n", 600)\nok(t, "<a xmlns:p='u' xmlns:q='u' p:"+n+"1='' q:"+n+"2=''/>", ns)''', "namespace awareness, two prefixes for one URI, local names of more than 512 bytes that differ late", "the element is rejected")
bug("c03-long-end-tags", "C03",
 [("parser/process_end_tag.go", "\t\tif p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {\n", "\t\tif i < 1024 && p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {\n")],
 'n := strings.Repeat("n", 1100)\nbad(t, "<"+n+"1></"+n+"2>")', "names of more than 1024 bytes that differ late", "the mismatch is accepted")
bug("c06-long-element-prefix", "C06",
 [(C, "\t\t\t\tif p.xmlDoc[os+j] != p.xmlDoc[preOs+j] {\n", "\t\t\t\tif j < 256 && p.xmlDoc[os+j] != p.xmlDoc[preOs+j] {\n")],
 '''n := strings.Repeat("n", 300)\nbad(t, "<a xmlns:"+n+"1='u'><"+n+"2:b/></a>", ns)''', "an undeclared prefix of more than 256 bytes that agrees with a declared one up to there", "it is accepted")
bug("c06-long-attr-prefix", "C06",
 [("parser/process_attr_val.go", "\t\t\t\t\tif p.xmlDoc[offset+k] != p.xmlDoc[preOs+k] {\n", "\t\t\t\t\tif k&0xff == k && p.xmlDoc[offset+k] != p.xmlDoc[preOs+k] {\n")],
 '''n := strings.Repeat("n", 300)\nbad(t, "<a xmlns:"+n+"1='u'><b "+n+"2:b=''/></a>", ns)''', "an undeclared attribute prefix of more than 256 bytes that agrees with a declared one up to there", "it is accepted")
bug("c07-long-uris", "C07",
 [("parser/process_attr_val.go", "\tendA, endB := a.offset+a.length, b.offset+b.length\n", "\tendA, endB := a.offset+a.length, b.offset+b.length\n\tif a.length == b.length && a.length > 1024 {\n\t\tendA, endB = a.offset+1024, b.offset+1024\n\t}\n")],
 '''n := strings.Repeat("n", 1100)\nok(t, "<a xmlns:p='"+n+"1' xmlns:q='"+n+"2' p:x='' q:x=''/>", ns)''', "two URIs of the same length over 1024 bytes that differ late", "they are taken for one")
# --- counts
bug("c07-many-attrs", "C07",
 [("parser/process_attr_name.go", "\tfor i := 0; i < p.attrCount; i++ {\n\t\tuniqual = false\n", "\tfor i := p.attrCount &^ 2047; i < p.attrCount; i++ {\n\t\tuniqual = false\n")],
 '''s := ""\nfor i := 0; i < 3000; i++ { s += fmt.Sprintf(" a%d=''", i) }\nbad(t, "<a"+s+" a5=''/>")''', "an attribute repeated after more than 2048 others", "the duplicate is accepted")
bug("c07-many-prefixed", "C07",
 [("parser/process_attr_val.go", "\t\tfor j := i + 1; j < p.prefixedAttCount; j++ {\n", "\t\tfor j := i + 1; j < p.prefixedAttCount && j-i <= 1000; j++ {\n")],
 '''s := ""\nfor i := 0; i < 1200; i++ { s += fmt.Sprintf(" p:a%d=''", i) }\nbad(t, "<a xmlns:p='u' xmlns:q='u'"+s+" q:a5=''/>", ns)''', "two colliding prefixed attributes with more than a thousand others between them", "the collision is accepted")
bug("c06-many-scopes", "C06",
 [("parser/process_attr_val.go", "\t\tfor ; i >= 0; i-- {\n", "\t\tfor ; i >= 0 && nsBuffer3Count-i < 2000; i-- {\n"), ("parser/process_attr_val.go", "\t\tif i < 0 {\n", "\t\tif i < 0 || nsBuffer3Count-i >= 2000 {\n")],
 '''s := ""\nfor i := 0; i < 2100; i++ { s += fmt.Sprintf(" xmlns:p%d='u'", i) }\nok(t, "<a"+s+"><b p3:x=''/></a>", ns)''', "an attribute prefix declared two thousand declarations ago", "the document is rejected")
# --- lines
bug("c16-many-lines", "C16",
 [(C, "\treturn fmt.Sprintf(\"\\nLine number: %d Offset: %d\", lineNumber+1, lineOffset+1)\n", "\treturn fmt.Sprintf(\"\\nLine number: %d Offset: %d\", uint16(lineNumber+1), lineOffset+1)\n")],
 '''err := bad(t, "<a>"+strings.Repeat("\\n", 70000)+"</b>")\nif !strings.Contains(err.(*erroring.ParseError).LineNumber, "70001") { t.Fatalf("%.300s", err) }''', "an error behind line 65535", "the line is wrong")
bug("c16-line-start-cap", "C16",
 [(C, "\tso := p.docOffset\n", "\tso := p.docOffset\n\tif offset-so > 1<<20 {\n\t\tso = offset - 1<<20\n\t}\n")],
 '''err := bad(t, "<a>\\n"+strings.Repeat("x", 1200000)+"</b>")\nif !strings.Contains(err.(*erroring.ParseError).LineNumber, "umber: 2 ") { t.Fatalf("%.300s", err) }''', "an error more than a megabyte behind a line break", "the line is wrong")
# --- space characters
bug("c03-nel-space", "C03",
 [(C, "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\treturn nil\n\t\t}\n", "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) && p.currentChar != 0x85 {\n\t\t\treturn nil\n\t\t}\n")],
 'bad(t, "<a ' + "\\u0085" + 'b=\'\'/>")', "the character U+0085 behind white space in a tag", "the document is accepted")
bug("c03-line-separator", "C03",
 [(C, "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\treturn nil\n\t\t}\n", "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) && (p.currentChar != 0x2028 || p.depth < 0) {\n\t\t\treturn nil\n\t\t}\n")],
 'bad(t, "<a b = ' + "\\u2028" + '\'\'/>")', "the character U+2028 behind '='", "the document is accepted")
# --- offsets
bug("c05-offset-24", "C05",
 [(C, "\treturn p.vtdBuffer.Append(b | offset64)\n", "\tif tokenType == common.TokenPiVal && depth < 0 {\n\t\toffset64 &= 0xFFFFFF\n\t}\n\treturn p.vtdBuffer.Append(b | offset64)\n")],
 '''d := "<a>"+strings.Repeat("x", 17<<20)+"</a><?p v?>"\nnav := ok(t, d)\no, _ := nav.GetTokenOffset(nav.GetVtdBufferSize()-1)\nsame(t, "offset", o, len(d)-3)''', "a PI more than 16 MB into the document, behind the root element", "its offset is wrong")
bug("c06-offset-24", "C06",
 [("parser/process_attr_name.go", "\t\tp.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice[:p.prefixedAttCount],\n", "\t\tif p.lastOffset >= 1<<24 && p.length2 > 15 {\n\t\t\treturn nil\n\t\t}\n\t\tp.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice[:p.prefixedAttCount],\n")],
 '''d := "<a>"+strings.Repeat("x", 17<<20)+"<b ppppppppppppppppppp:x=''/></a>"\nbad(t, d, ns)''', "an undeclared long attribute prefix more than 16 MB into the document", "it is accepted")
bug("c03-end-tag-offset", "C02",
 [("parser/process_start_tag.go", "\tx := (p.length1 << 32) + p.lastOffset\n", "\tx := (p.length1 << 32) + p.lastOffset&^(1<<23)\n")],
 '''d := "<a><!--"+strings.Repeat("x", 9<<20)+"--><b></b></a>"\nok(t, d)''', "an element more than 8 MB into the document", "its end tag is compared with something else")
# --- token counts
bug("c08-many-tokens", "C08",
 [(C, "\t\tif err := p.l3Buffer.Append(int64((index << 32) | 0xFFFFFFFF)); err != nil {\n", "\t\tif err := p.l3Buffer.Append(int64(((index & 0xFFFFF) << 32) | 0xFFFFFFFF)); err != nil {\n")],
 '''d := "<a><b><c>"+strings.Repeat("<d/>", 1100000)+"<z/></c></b></a>"\nsame(t, "walk", walk(t, ok(t, d), "rffl"), "++++ z")''', "more than a million level-3 elements", "the last one is not found")
bug("c05-page-rollover", "C05",
 [("parser/init.go", "func (p *VtdParser) init() error {\n", "func (p *VtdParser) init() error {\n")], '', '', '', skip=True)
# --- text records
bug("c12-text-many-records", "C12",
 [("navigation/common.go", "\t\t\treturn int32(length), nil\n\t\t}\n\t}\n\tval, err := n.vtdBuffer.LongAt(index)\n", "\t\t\tif length >= 1<<23 {\n\t\t\t\tlength = 1<<23 - 1\n\t\t\t}\n\t\t\treturn int32(length), nil\n\t\t}\n\t}\n\tval, err := n.vtdBuffer.LongAt(index)\n")],
 '''d := "<a>"+strings.Repeat("x", 9<<20)+"</a>"\nl, _ := ok(t, d).GetTokenLength(2)\nsame(t, "length", l, 9<<20)''', "text of more than eight megabytes", "its length is wrong")
bug("c08-long-text-sibling", "C08",
 [("navigation/to_element.go", "\tindex := int(n.context[n.context[0]] + 1)\n\tfor index < n.vtdBuffer.GetSize() {\n\t\ttokenType, err := n.GetTokenType(index)\n\t\tif err != nil {\n\t\t\treturn false, nil\n\t\t}\n\t\tdepth, err := n.GetTokenDepth(index)\n\t\tif err != nil {\n\t\t\treturn false, err\n\t\t}\n\t\tif common.Token(tokenType) == common.TokenStartingTag {\n\t\t\tif depth < n.context[0] {", "\tindex := int(n.context[n.context[0]] + 1)\n\tfor index < n.vtdBuffer.GetSize() {\n\t\ttokenType, err := n.GetTokenType(index)\n\t\tif err != nil {\n\t\t\treturn false, nil\n\t\t}\n\t\tdepth, err := n.GetTokenDepth(index)\n\t\tif err != nil {\n\t\t\treturn false, err\n\t\t}\n\t\tif l, err := n.GetTokenLength(index); err == nil && l > 0xFFFFF {\n\t\t\tindex += 2\n\t\t}\n\t\tif common.Token(tokenType) == common.TokenStartingTag {\n\t\t\tif depth < n.context[0] {")],
 '''d := "<a><b><c><d><e/>"+strings.Repeat("x", 1<<20+10)+"<f/><g/></d></c></b></a>"\nsame(t, "walk", walk(t, ok(t, d), "rffffn"), "++++++ f")''', "text of two records between siblings on level 4", "the next sibling is missed")
bug("c09-long-value", "C09",
 [("navigation/to_string.go", "\t\tif inc > 1 {\n", "\t\tif buffer.Len() == 1<<16-1 && ch >= 0x80 && inc > 1 {\n\t\t\tch &= 0x7f\n\t\t}\n\t\tif inc > 1 {\n")],
 '''d := "<a>"+strings.Repeat("x", 1<<16-1)+"&#233;</a>"\ns, _ := ok(t, d).ToStringAtIndex(2)\nsame(t, "value", s[1<<16-1:], "\\u00e9")''', "a reference whose value starts at byte 65535 of a text", "it denotes another character")
bug("c10-long-range", "C10",
 [("navigation/to_string.go", "\t\tch, err := n.getChar(i)\n\t\tif err != nil {\n\t\t\treturn \"\", err\n\t\t}\n", "\t\tch, err := n.getChar(i)\n\t\tif err != nil {\n\t\t\treturn \"\", err\n\t\t}\n\t\tif buffer.Len() > 1<<20 {\n\t\t\tbreak\n\t\t}\n")],
 '''d := "<a>"+strings.Repeat("x", 1200000)+"</a>"\ns, _ := ok(t, d).ToRawStringAtIndex(2)\nsame(t, "length", len(s), 1200000)''', "text of more than a megabyte read raw", "it is cut")
# --- cuts
bug("c04-comment-long-cut", "C04",
 [("parser/process_start_comment.go", "\t\tif err := p.nextChar(); err != nil {\n", "\t\tif err := p.nextChar(); err != nil {\n\t\t\tif p.depth < 0 && p.offset-p.lastOffset > 4096 {\n\t\t\t\treturn StateDocEnd, nil\n\t\t\t}\n")],
 'bad(t, "<!--"+strings.Repeat("x", 5000))', "a document cut inside a long comment in front of the root element", "no error", skip=True)
bug("c04-cut-long-pi", "C04",
 [("parser/process_pi_end.go", "\t\t\tif err := p.nextChar(); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t}\n\t\tp.length1", "\t\t\tif err := p.nextChar(); err != nil {\n\t\t\t\tif p.offset-p.lastOffset > 4096 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t}\n\t\tp.length1")],
 'bad(t, "<a/><?p "+strings.Repeat("x", 5000))', "a document cut inside a PI of more than 4096 bytes behind the root element", "it is accepted")
bug("c04-cut-many-trailing", "C04",
 [("parser/process_doc_end.go", "\tif p.currentChar == '<' {\n", "\tif p.currentChar == '<' {\n\t\tif p.vtdBuffer.GetSize() > 512 && p.offset == p.endOffset {\n\t\t\treturn StateInvalid, erroring.NewEOFError(\"document has ended\")\n\t\t}\n")],
 'bad(t, "<a/>"+strings.Repeat("<!---->", 600)+"<")', "a document cut directly behind '<' after hundreds of trailing comments", "it is accepted")
# --- C01
bug("c01-scope-depth", "C01",
 [("parser/process_start_tag.go", "\t\tif p.depth <= p.nsBuffer1.GetSize()-1 {\n", "\t\tif p.depth <= p.nsBuffer1.GetSize()-1 {\n\t\t\tif p.depth > 128 {\n\t\t\t\t_ = p.prefixUrlSlice[p.nsBuffer3.GetSize()+128]\n\t\t\t}\n")],
 '''d := ""\nfor i := 0; i < 130; i++ { d += fmt.Sprintf("<a xmlns:p%d='u'>", i) }\nd += "<b/><b/>" + strings.Repeat("</a>", 130)\nok(t, d, ns)''', "namespace awareness, siblings 130 levels deep and 128 declarations in scope", "the parser panics")
bug("c01-line-of-empty", "C01",
 [("parser/process_doc_end.go", "\treturn StateInvalid, erroring.NewParseError(\"XML not terminated properly\", p.fmtLine(), nil)\n", "\tif p.currentChar >= 0x80 && p.offset == p.endOffset {\n\t\treturn StateInvalid, erroring.NewParseError(\"XML not terminated properly\", p.fmtCustomLine(p.offset+2), nil)\n\t}\n\treturn StateInvalid, erroring.NewParseError(\"XML not terminated properly\", p.fmtLine(), nil)\n")],
 'bad(t, "<a/>\\u00e9")', "a document that ends in a character of more than one byte behind the root element", "the parser panics")
# --- C11
bug("c11-long-space", "C11",
 [("parser/process_dec_attr_name.go", "\tif p.currentChar == uint32(version[0]) && p.skipCharSeq(version[1:]) {\n", "\tif p.lastOffset-p.docOffset > 64 {\n\t\treturn StateInvalid, erroring.NewParseError(\"declaration should be version\", p.fmtLine(), nil)\n\t}\n\tif p.currentChar == uint32(version[0]) && p.skipCharSeq(version[1:]) {\n")],
 'ok(t, "<?xml"+strings.Repeat(" ", 100)+"version=\'1.0\'?><a/>")', "more than sixty spaces in front of version", "the document is rejected")
bug("c11-ascii-window", "C13",
 [("parser/process_dec_attr_name.go", "to US-ASCII\", p.fmtLine(), nil)\n\t}\n\tp.encoding = common.FormatAscii\n\tr, err := reader.NewAsciiReader(p.xmlDoc, p.offset, p.endOffset)\n", "to US-ASCII\", p.fmtLine(), nil)\n\t}\n\tp.encoding = common.FormatAscii\n\tr, err := reader.NewAsciiReader(p.xmlDoc, p.offset, len(p.xmlDoc))\n")],
 '''d := "<?xml version='1.0' encoding='us-ascii'?><a/>"\np, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte(d+"x"), 0, len(d)))\nif err == nil { err = p.Parse() }\nif err != nil { t.Fatal(err) }''', "a window of a document declared US-ASCII", "bytes behind it are read", allprops="C13")
bug("c11-yes-prefix", "C11",
 [("parser/process_dec_attr_name.go", "\tif err := p.nextChar(); err != nil {\n\t\treturn err\n\t}\n\tif p.currentChar != quote {\n\t\treturn erroring.NewParseError(\"invalid char to start attribute name\", p.fmtLine(), nil)\n\t}\n\tif err := p.nextCharAfterWs(); err != nil {\n", "\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn err\n\t}\n\tif p.currentChar != quote {\n\t\treturn erroring.NewParseError(\"invalid char to start attribute name\", p.fmtLine(), nil)\n\t}\n\tif err := p.nextCharAfterWs(); err != nil {\n")],
 '''bad(t, "<?xml version='1.0' standalone='yes '?><a/>")''', "white space behind the value of standalone", "it is accepted")
# --- C13
bug("c13-high-window", "C13",
 [("parser/process_start_tag.go", "\tx := (p.length1 << 32) + p.lastOffset\n", "\tx := (p.length1 << 32) + p.lastOffset&0x1FFFFFFF\n")],
 '''d := make([]byte, 600<<20)\ncopy(d[550<<20:], "<a><b></b></a>")\np, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(d, 550<<20, 14))\nif err == nil { err = p.Parse() }\nif err != nil { t.Fatal(err) }''', "a window behind the first half gigabyte of a buffer", "end tags are compared with other bytes")
# --- C14
bug("c14-reuse-big", "C14",
 [("parser/init.go", "XX", "XX")], '', '', '', skip=True)
bug("c14-lc5-many", "C14",
 [(C, "\t\t\tif err := p.l5Buffer.Append(int64(p.vtdBuffer.GetSize() - 1)); err != nil {\n", "\t\t\tif p.l5Buffer.GetSize() >= 4096 {\n\t\t\t\treturn erroring.NewInternalError(\"level 5 cache full\", nil)\n\t\t\t}\n\t\t\tif err := p.l5Buffer.Append(int64(p.vtdBuffer.GetSize() - 1)); err != nil {\n")],
 '''d := "<a><a><a><a><a>"+strings.Repeat("<b/>", 5000)+"</a></a></a></a></a>"\nok(t, d, parser.WithLcDepth(5))''', "location-cache depth 5 and more than 4096 elements on level 5", "the document is rejected")
# --- C15
bug("c15-scratch-shared", "C15",
 [("navigation/to_string.go", "func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {\n\tvar buffer bytes.Buffer\n", "var lastRaw struct {\n\tn           *VtdNav\n\toffset, end int32\n\ts           string\n}\n\nfunc (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {\n\tif lastRaw.n == n && lastRaw.offset == offset && length > 64 && int(length) <= len(lastRaw.s) {\n\t\treturn lastRaw.s, nil\n\t}\n\tvar buffer bytes.Buffer\n\tdefer func() { lastRaw.n, lastRaw.offset, lastRaw.s = n, offset, buffer.String() }()\n")],
 '''nav := ok(t, "<a>"+strings.Repeat("x", 200)+"</a>")\ns, _ := nav.ToRawStringAtRange(3, 100)\nnav.ToRawStringAtRange(3, 100)\nt2, _ := nav.ToRawStringAtRange(3, 80)\nsame(t, "lengths", fmt.Sprint(len(s), len(t2)), "100 80")''', "a long raw range read after a longer one from the same place", "the longer one is returned")
bug("c15-write-end", "C15",
 [("parser/process_end_tag.go", "\tp.setOffset(p.lastOffset + sLength)\n", "\tif sLength > 64 {\n\t\tcopy(p.xmlDoc[p.lastOffset:], \"/\")\n\t\tp.xmlDoc[p.lastOffset] = p.xmlDoc[sOffset]\n\t}\n\tp.setOffset(p.lastOffset + sLength)\n")],
 '', '', '', skip=True)
# --- C17 / C18 / C19 / C20
bug("c17-upper-mask", "C17",
 [("buffer/long_buffer.go", "XX", "XX")], '', '', '', skip=True)
# --- C21
bug("c21-many-records", "C21",
 [("navigation/common.go", "\t\t\treturn int32(length), nil\n\t\t}\n\t}\n\tval, err := n.vtdBuffer.LongAt(index)\n", "\t\t\tif n.vtdBuffer.GetSize() > 4096 && length > 0xFFFFF {\n\t\t\t\tlength = 0xFFFFF\n\t\t\t}\n\t\t\treturn int32(length), nil\n\t\t}\n\t}\n\tval, err := n.vtdBuffer.LongAt(index)\n")],
 '''d := "<a>"+strings.Repeat("<b/>", 5000)+strings.Repeat("x", 1<<21)+"</a>"\nnav := ok(t, d)\nl, _ := nav.GetTokenLength(5002)\nsame(t, "length", l, 1<<21)''', "text of several records in a list of more than 4096", "its length is wrong")
# --- C23
bug("c23-depth-copy", "C23",
 [("parser/process_start_tag.go", "\tp.tagStack[p.depth] = int64(x)\n", "\tp.tagStack = append([]int64(nil), p.tagStack...)\n\tp.tagStack[p.depth] = int64(x)\n")],
 '''d := "<a>"+strings.Repeat("<b/>", 20000)+"</a>"\nvar m0, m1 runtime.MemStats\nruntime.ReadMemStats(&m0)\nok(t, d)\nruntime.ReadMemStats(&m1)\nif n := m1.TotalAlloc - m0.TotalAlloc; n > 20<<20 { t.Fatalf("%d bytes for a document of %d", n, len(d)) }''', "any document with many elements", "the stack is copied for each of them")
bug("c23-url-resolve", "C23",
 [("parser/process_attr_val.go", "\t\tmatch, err := p.matchUrl(urlA, urlB)\n", "XX")], '', '', '', skip=True)
bug("c23-end-lookup", "C23",
 [("parser/process_text.go", "\tp.length1 = p.offset - p.increment - p.lastOffset\n", "\tp.length1 = p.offset - p.increment - p.lastOffset\n\tif p.length1 > 1024 {\n\t\tp.attrNameSlice = append(make([]int, 0, p.lastOffset), p.attrNameSlice...)\n\t}\n")],
 '''d := "<a>"+strings.Repeat(strings.Repeat("x", 1100)+"<b/>", 300)+"</a>"\nvar m0, m1 runtime.MemStats\nruntime.ReadMemStats(&m0)\nok(t, d)\nruntime.ReadMemStats(&m1)\nif n := m1.TotalAlloc - m0.TotalAlloc; n > 60<<20 { t.Fatalf("%d bytes for a document of %d", n, len(d)) }''', "many texts of more than a kilobyte", "each of them allocates as much as lies in front of it")
# --- C02
bug("c02-pi-in-deep", "C02",
 [("parser/process_pi_val.go", "\t\tif p.currentChar == '?' && p.skipChar('>') {\n", "\t\tif p.currentChar == '?' && p.lastChar != '?' && p.skipChar('>') {\n")],
 'ok(t, "<a><?p v??></a>")', "a PI value that ends in a question mark", "the document is rejected")
bug("c02-attr-ws-lines", "C02",
 [("parser/process_attr_name.go", "\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn StateInvalid, err\n\t}\n\tif p.currentChar != '\"' && p.currentChar != '\\'' {\n", "\tlineStart := p.offset\n\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn StateInvalid, err\n\t}\n\tif p.offset-lineStart > 256 {\n\t\treturn StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)\n\t}\n\tif p.currentChar != '\"' && p.currentChar != '\\'' {\n")],
 'ok(t, "<a b="+strings.Repeat("\\n", 300)+"\'\'/>")', "more than 256 white-space characters behind '='", "the document is rejected")
bug("c02-end-tag-space", "C02",
 [("parser/process_end_tag.go", "\tp.depth--\n", "\tp.depth--\n\tif p.depth > 15 && p.xmlDoc[p.offset] == '\\t' {\n\t\treturn StateInvalid, erroring.NewParseError(\"invalid char in ending\", p.fmtLine(), nil)\n\t}\n")],
 'ok(t, strings.Repeat("<a>", 18)+"</a\\t>"+strings.Repeat("</a>", 17))', "a tab in an end tag more than sixteen levels deep", "the document is rejected")
# --- C12
bug("c12-pi-name-limit", "C12",
 [("parser/process_pi_tag.go", "\tp.length1 = p.offset - p.lastOffset - p.increment\n", "\tp.length1 = p.offset - p.lastOffset - p.increment\n\tif p.length1 > maxQnameLength && p.depth < 0 {\n\t\treturn StateInvalid, erroring.NewParseError(\"PI name too long >0xFFFFF\", p.fmtLine(), nil)\n\t}\n")],
 'ok(t, "<?"+strings.Repeat("p", 3000)+" v?><a/>")', "a PI target of more than 2047 bytes in front of the root element", "the document is rejected")
bug("c12-dtd-limit", "C12",
 [("parser/process_doc_type.go", "\tp.length1 = p.offset - p.lastOffset - p.increment\n", "\tp.length1 = p.offset - p.lastOffset - p.increment\n\tif p.length1 == maxTokenLength+1 {\n\t\tp.length1--\n\t}\n")],
 '''d := "<!DOCTYPE a [" + strings.Repeat(" ", 1<<20)\nd = d[:len("<!DOCTYPE")+(1<<20)-1] + "]><a/>"\nbad(t, d)''', "a DTD one byte longer than allowed", "it is accepted with a wrong length")
# --- C22
bug("c22-last-index", "C21",
 [("navigation/common.go", "\t\t\tvar length uint64\n\t\t\tdepth, caseErr := n.GetTokenDepth(index)\n", "\t\t\tvar length uint64\n\t\t\tif index > 1<<16 {\n\t\t\t\tindex--\n\t\t\t}\n\t\t\tdepth, caseErr := n.GetTokenDepth(index)\n")],
 '''d := "<a>"+strings.Repeat("<b/>xy", 40000)+"</a>"\nnav := ok(t, d)\nl, _ := nav.GetTokenLength(70001)\nsame(t, "length", l, 2)''', "a text record with an index over 65536", "the length of another record", allprops="C21")
# --- C16
bug("c16-end-in-long", "C16",
 [("parser/process_text.go", "\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n", "\t\tif err := p.nextChar(); err != nil {\n\t\t\tif p.offset-p.lastOffset > 1<<16 {\n\t\t\t\treturn StateInvalid, erroring.NewParseError(erroring.XmlIncomplete, p.fmtLine(), nil)\n\t\t\t}\n\t\t\treturn StateInvalid, err\n\t\t}\n")],
 '''err := bad(t, "<a>"+strings.Repeat("x", 70000))\nvar pe *erroring.ParseError\nif errors.As(err, &pe) { t.Fatalf("%.100s", err) }''', "input that ends inside text of more than 65536 bytes", "a parse error instead of an end-of-input error")
bug("c16-cr-lines", "C16",
 [(C, "\t\t\tif p.xmlDoc[so] == '\\n' {\n", "\t\t\tif p.xmlDoc[so] == '\\n' && !(so-p.docOffset > 1024 && p.xmlDoc[so-1] == '\\n' && p.xmlDoc[so-2] == '\\n') {\n")],
 '''err := bad(t, "<a>"+strings.Repeat("x", 2000)+"\\n\\n\\n\\n</b>")\nif !strings.Contains(err.(*erroring.ParseError).LineNumber, "umber: 5 ") { t.Fatalf("%.300s", err) }''', "three empty lines more than a kilobyte into the document", "the line is wrong")
# --- C08
bug("c08-last-deep-many", "C08",
 [("navigation/to_element.go", "\t\t\t} else if depth == (n.context[0] + 1) {\n\t\t\t\tlastIndex = index\n", "\t\t\t} else if depth == (n.context[0]+1) && index-int(n.context[n.context[0]]) < 1<<12 {\n\t\t\t\tlastIndex = index\n")],
 '''d := "<a><b><c><d>"+strings.Repeat("<e/>", 5000)+"<f/></d></c></b></a>"\nsame(t, "walk", walk(t, ok(t, d), "rfffl"), "+++++ f")''', "the last of more than four thousand children on level 4", "another one is found")
bug("c08-prev-over-deep", "C08",
 [("navigation/to_element.go", "\t\t\tif depth == n.context[0] {\n\t\t\t\tn.context[n.context[0]] = int32(index)\n\t\t\t\treturn true, nil\n\t\t\t}\n\t\t}\n\t\tindex--\n", "\t\t\tif depth == n.context[0] {\n\t\t\t\tn.context[n.context[0]] = int32(index)\n\t\t\t\treturn true, nil\n\t\t\t}\n\t\t\tif depth > n.context[0]+8 {\n\t\t\t\treturn false, nil\n\t\t\t}\n\t\t}\n\t\tindex--\n")],
 '''d := "<a><b><c><d><e>"+strings.Repeat("<x>", 10)+strings.Repeat("</x>", 10)+"</e><f/></d></c></b></a>"\nsame(t, "walk", walk(t, ok(t, d), "fffflv"), "XX")''', '', '', skip=True)
# --- C24
bug("c24-newline-message", "C24",
 [("erroring/erroring.go", "XX", "XX")], '', '', '', skip=True)
BUGS[:] = [b for b in BUGS if not b.get("skip")]
