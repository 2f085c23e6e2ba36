BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("c01-line-count-past-end", "C01",
 [("parser/common.go", "for so <= offset-1 {\n\t\t\tif p.xmlDoc[so] == '\\n' {\n\t\t\t\tlineNumber++", "for so <= offset {\n\t\t\tif p.xmlDoc[so] == '\\n' {\n\t\t\t\tlineNumber++")],
 'bad(t, "<a></a>x")', "a parse error on the very last byte of the document", "counting lines reads one byte past the document and panics")

bug("c01-uri-hex-reference", "C01",
 [("parser/process_attr_val.go", "\t\t\t\t\t} else if ch == ';' {\n\t\t\t\t\t\tinc += p.increment\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t} else {\n",
   "\t\t\t\t\t} else if ch == ';' && val > 0xF {\n\t\t\t\t\t\tinc += p.increment\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t} else {\n")],
 '''ok(t, "<a xmlns:p='http://www.w3.org/XML/1998/name&#x9;x' p:b='1'/>", ns)''',
 "namespace awareness and a one-digit hexadecimal reference (a tab or a line feed) in a long namespace URI", "resolving the URI runs past the reference and out of the document")

bug("c02-question-mark-in-pi", "C02",
 [("parser/process_pi_val.go", "if p.currentChar == '?' && p.skipChar('>') {\n\t\t\tbreak\n\t\t}", "if p.currentChar == '?' {\n\t\t\tif err := p.nextChar(); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t\tif p.currentChar == '>' {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}")],
 'ok(t, "<a><?p what??></a>")', "a PI value that ends in an odd number of question marks before '?>'", "the second question mark is swallowed and the PI never ends")

bug("c02-reference-after-comment", "C02",
 [("parser/process.go", "\t\tif !p.xmlChar.IsValidChar(ch) {\n\t\t\treturn StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)\n\t\t}\n\t\treturn StateText, nil\n\t}\n\tif ch == ']'",
   "\t\tif !p.xmlChar.IsContentChar(ch) {\n\t\t\treturn StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)\n\t\t}\n\t\treturn StateText, nil\n\t}\n\tif ch == ']'")],
 'ok(t, "<a><!--c-->&#233;</a>")\nok(t, "<a><!--c-->&lt;</a>")', "text that starts with a reference to '<', '&' or ']' directly behind a comment, PI or CDATA section", "the reference is rejected as an illegal character")

bug("c02-gt-in-attr", "C02",
 [("parser/process_attr_val.go", "if p.xmlChar.IsValidChar(p.currentChar) && p.currentChar != '<' {", "if p.currentChar == ch || p.xmlChar.IsContentChar(p.currentChar) || p.currentChar == '&' {")],
 '''ok(t, "<a b='x[1]'/>")''', "an attribute value with a closing square bracket", "']' is rejected in attribute values")

bug("c03-end-tag-edges", "C03",
 [("parser/process_end_tag.go", "if p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {", "if p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] && (i < 8 || i == sLength-1) {")],
 'bad(t, "<configuration></configurotion>")\nok(t, "<configuration></configuration>")', "start and end tags that agree in the first eight bytes and the last", "a mismatched end tag is accepted")

bug("c03-attrs-without-space", "C03",
 [("parser/process_attr_val.go", "\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tif p.xmlChar.IsNameStartChar(p.currentChar) {\n", "\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t}\n\tif p.attrCount > 1 || p.xmlChar.IsSpaceChar(p.lastChar) {\n\t\tif p.xmlChar.IsNameStartChar(p.currentChar) {\n")],
 '''bad(t, "<a x='1' y='2'z='3'/>")\nok(t, "<a x='1' y='2' z='3'/>")\nbad(t, "<a x='1'y='2'/>")''', "two attributes without white space between them, not the first two", "the element is accepted")

bug("c03-comment-dashes", "C03",
 [("parser/process_start_comment.go", "\tif err := p.nextChar(); err != nil {\n\t\treturn StateInvalid, err\n\t}\n\tif p.currentChar != '>' {", "\tfor {\n\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tif p.currentChar != '-' {\n\t\t\tbreak\n\t\t}\n\t}\n\tif p.currentChar != '>' {")],
 'bad(t, "<a><!--x---></a>")', "a comment that ends in more than two dashes", "it is accepted")

bug("c03-pi-end-chars", "C03",
 [("parser/process_pi_end.go", "\t\tfor {\n\t\t\tif !p.xmlChar.IsValidChar(p.currentChar) {\n\t\t\t\treturn StateInvalid, erroring.NewParseError(\"invalid char in PI value\", p.fmtLine(), nil)\n\t\t\t}\n", "\t\tif !p.xmlChar.IsValidChar(p.currentChar) {\n\t\t\treturn StateInvalid, erroring.NewParseError(\"invalid char in PI value\", p.fmtLine(), nil)\n\t\t}\n\t\tfor {\n")],
 'bad(t, "<a/><?p x\\uffff?>")\nbad(t, "<a/><?p \\uffff?>")', "an illegal character that is not the first of the value of a PI behind the root element", "the document is accepted")

bug("c03-hex-digits", "C03",
 [("parser/common.go", "} else if ch >= 'a' && ch <= 'f' {\n\t\t\t\t\t\tvalue = (value << 4) + (ch - 'a' + 10)", "} else if ch >= 'a' && ch <= 'g' {\n\t\t\t\t\t\tvalue = (value << 4) + (ch - 'a' + 10)")],
 'bad(t, "<a>&#x4g;</a>")', "the letter g as a hexadecimal digit", "a malformed character reference is accepted")

bug("c04-pi-at-end", "C04",
 [("parser/process_pi_end.go", "\t\t\tif err := p.nextChar(); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t}\n\t\tp.length1", "\t\t\tif err := p.nextChar(); err != nil {\n\t\t\t\treturn StateDocEnd, nil\n\t\t\t}\n\t\t}\n\t\tp.length1")],
 'bad(t, "<a/><?p value")\nok(t, "<a/><?p value?>")', "a document cut inside the value of a PI behind the root element", "the cut document is accepted")

bug("c04-root-end-tag", "C04",
 [("parser/process_end_tag.go", "\tp.depth--\n\tif err := p.nextCharAfterWs(); err != nil {\n", "\tp.depth--\n\tif err := p.nextCharAfterWs(); err != nil && p.depth == -1 {\n\t\treturn StateDocEnd, nil\n\t} else if err != nil {\n")],
 'bad(t, "<a>x</a")\nbad(t, "<a>x</a ")\nok(t, "<a>x</a >")', "a document cut inside its last end tag, behind the name", "the cut document is accepted")

bug("c05-pi-value-offset", "C05",
 [("parser/process_pi_val.go", "\tp.lastOffset = p.offset\n\tfor {\n", "\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn StateInvalid, err\n\t}\n\tp.setOffset(p.offset - 1)\n\tp.lastOffset = p.offset\n\tfor {\n")],
 'nav := ok(t, "<a><?p   v?></a>")\nsame(t, "tokens", tokens(nav), "13@0+0/-1 0@1+1/0 7@5+1/0 8@7+3/0")', "more than one white-space character between a PI target and its value", "the value token loses its leading white space")

bug("c06-scope-leak", "C06",
 [("parser/process_start_tag.go", "if p.depth <= p.nsBuffer1.GetSize()-1 {", "if p.depth < p.nsBuffer1.GetSize()-1 {")],
 '''bad(t, "<r><a xmlns:p='u'/><p:b/></r>", ns)\nok(t, "<r><a xmlns:p='u'><p:b/></a></r>", ns)''', "a prefix used on the next sibling of the element that declares it", "declarations outlive their element")

bug("c06-xml-flag", "C06",
 [("parser/process_attr_val.go", "\tp.isXml, p.isNs = false, false\n", "\tp.isNs = false\n")],
 '''ok(t, "<a xmlns:xml='http://www.w3.org/XML/1998/namespace' xmlns:p='u' p:b='1'/>", ns)''', "another prefix declared after a legal redeclaration of 'xml'", "the later declaration is rejected or lost")

bug("c06-default-xml-uri", "C06",
 [("parser/process_attr_val.go", "\t\t\tif nsUrlType != DefaultNsUrl {\n", "\t\t\tif nsUrlType != DefaultNsUrl && !p.defaultNs {\n")],
 '''bad(t, "<a xmlns='http://www.w3.org/XML/1998/namespace'/>", ns)\nbad(t, "<a xmlns='http://www.w3.org/2000/xmlns/'/>", ns)''', "a reserved URI as the default namespace", "the declaration is accepted")

bug("c06-prefix-length-only", "C06",
 [("parser/common.go", "\t\t\tfor ; j < preLen-p.increment; j++ {\n", "\t\t\tfor ; j < preLen-2*p.increment; j++ {\n"),
  ("parser/common.go", "\t\t\tif j == preLen-p.increment {\n", "\t\t\tif j >= preLen-2*p.increment {\n")],
 '''bad(t, "<r xmlns:ab='u'><ac:b/></r>", ns)\nok(t, "<r xmlns:ab='u'><ab:b/></r>", ns)''', "an undeclared element prefix that differs from a declared one of the same length in its last character only", "the element is accepted")

bug("c07-last-comparison", "C07",
 [("parser/process_attr_name.go", "\t\tunique = unique && uniqual\n", "\t\tunique = uniqual\n")],
 '''bad(t, "<r a='1' b='2' a='3'/>")\nbad(t, "<r a='1' a='3'/>")''', "a repeated attribute with another attribute in between", "the element is accepted")

bug("c07-uri-of-outer-scope", "C07",
 [("parser/process_attr_val.go", "\tnsBuffer3Count := p.nsBuffer3.GetSize() - 1\n", "\tnsBuffer3Count := p.nsBuffer3.GetSize()\n"),
  ("parser/process_attr_val.go", "\t\ti := nsBuffer3Count\n\t\tfor ; i >= 0; i-- {\n", "\t\ti := 0\n\t\tfor ; i < nsBuffer3Count; i++ {\n"),
  ("parser/process_attr_val.go", "\t\tif i < 0 {\n\t\t\treturn erroring.NewParseError(\"prefixed attribute not qualified\"", "\t\tif i == nsBuffer3Count {\n\t\t\treturn erroring.NewParseError(\"prefixed attribute not qualified\"")],
 '''bad(t, "<r xmlns:p='u'><a xmlns:p='v' xmlns:q='v' p:x='1' q:x='2'/></r>", ns)\nok(t, "<r xmlns:p='v'><a xmlns:p='u' xmlns:q='v' p:x='1' q:x='2'/></r>", ns)''', "attributes with a prefix that an outer element binds to another URI", "the outer binding is used: collisions are missed and invented")

bug("c07-uri-buffer-kept", "C07",
 [("parser/process_start_tag.go", "\t\t\tp.nsBuffer2.SetSize(int(t + 1))\n", "\t\t\tif p.depth > 1 {\n\t\t\t\tp.nsBuffer2.SetSize(int(t + 1))\n\t\t\t}\n")],
 '''bad(t, "<r><a xmlns:x='w'/><b xmlns:p='u' xmlns:q='u' p:y='1' q:y='2'/></r>", ns)\nok(t, "<r><a xmlns:x='w' xmlns:z='w'/><b xmlns:p='u' xmlns:q='v' p:y='1' q:y='2'/></r>", ns)''', "a second child of the root with two prefixes and same-named attributes, after a sibling with declarations", "the URIs of the sibling are compared instead")

bug("c08-last-child-gap", "C08",
 [("navigation/to_element.go", "\t\t\t\tif uint32(lower) != uint32(0xffffffff) {\n\t\t\t\t\tn.l3upper = lower - 1\n\t\t\t\t\tbreak\n\t\t\t\t}\n", "\t\t\t\tif uint32(lower) != uint32(0xffffffff) {\n\t\t\t\t\tn.l3upper = lower - 1\n\t\t\t\t}\n\t\t\t\tbreak\n")],
 '''nav := ok(t, "<r><a><b><c/></b><d/><e><f/></e></a></r>")
 for _, m := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.LastChild} {
 	moved, err := nav.ToElement(m)
 	if err != nil || !moved { t.Fatal(m, moved, err) }
 }
 i, _ := nav.GetCurrentIndex()
 s, _ := nav.ToRawStringAtIndex(int(i))
 same(t, "last child", s, "c")''', "the last child of a level-2 element whose next sibling is empty while a later one has children", "the cursor lands on a cousin")

bug("c08-deep-last-child", "C08",
 [("navigation/to_element.go", "\t\t\tif depth <= n.context[0] {\n\t\t\t\tbreak\n", "\t\t\tif depth < n.context[0] {\n\t\t\t\tbreak\n")],
 '''nav := ok(t, "<r><a><b><c><d/></c><c><e/></c></b></a></r>")
 for _, m := range []navigation.Direction{navigation.FirstChild, navigation.FirstChild, navigation.FirstChild, navigation.FirstChild, navigation.LastChild} {
 	moved, err := nav.ToElement(m)
 	if err != nil || !moved { t.Fatal(m, moved, err) }
 }
 i, _ := nav.GetCurrentIndex()
 s, _ := nav.ToRawStringAtIndex(int(i))
 same(t, "last child", s, "d")''', "the last child of an element on level 3 or deeper that has a later sibling", "the cursor lands in the sibling")

bug("c08-prev-sibling-bound", "C08",
 [("navigation/to_element.go", "\t\t\t\tif n.l2index-1 < int(n.l2lower) {", "\t\t\t\tif n.l2index-1 < 0 {")],
 '''nav := ok(t, "<r><a><x/></a><b><y/></b></r>")
 for i, m := range []navigation.Direction{navigation.FirstChild, navigation.LastChild, navigation.FirstChild, navigation.PrevSibling} {
 	moved, err := nav.ToElement(m)
 	if err != nil || moved != (i < 3) { t.Fatal(i, moved, err) }
 }''', "the previous sibling of the first child of a level-1 element that is not the first", "the cursor moves to a cousin")

bug("c09-apos-length", "C09",
 [("navigation/get_char_resolved.go", "\t\t\t\treturn 6, '\\'', nil\n", "\t\t\t\treturn 5, '\\'', nil\n")],
 '''nav := ok(t, "<r>it&apos;s</r>")\ns, _ := nav.ToStringAtIndex(2)\nsame(t, "text", s, "it's")''', "a reference to the apostrophe", "its semicolon stays in the value")

bug("c10-name-mask", "C10",
 [("navigation/to_string.go", "\t\tlength = l & 0xFFFF\n", "\t\tlength = l & 0x3FF\n")],
 '''n := strings.Repeat("n", 1500)\nnav := ok(t, "<"+n+"/>")\ns, err := nav.ToRawStringAtIndex(1)\nif err != nil || s != n { t.Fatal(len(s), err) }''', "an element or attribute name of 1024 bytes or more", "its text is cut")

bug("c11-us-ascii-reader", "C11",
 [("parser/process_dec_attr_name.go", "\tp.reader = r\n\tif err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 8, p.depth); err != nil {", "\t_ = r\n\tif err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 8, p.depth); err != nil {")],
 '''bad(t, "<?xml version='1.0' encoding='US-ASCII'?><a>é</a>")\nok(t, "<?xml version='1.0' encoding='US-ASCII'?><a>e</a>")''', "a byte above 127 in a document declared US-ASCII", "the document is accepted")

bug("c11-standalone-loop", "C11",
 [("parser/process_dec_attr_name.go", "\t\tif p.currentChar == uint32(standalone[0]) {\n", "\t\tfor p.currentChar == uint32(standalone[0]) {\n")],
 '''bad(t, "<?xml version='1.0' standalone='yes' standalone='no'?><a/>")\nok(t, "<?xml version='1.0' standalone='yes' ?><a/>")''', "two standalone declarations", "the declaration is accepted")

bug("c11-version-quote", "C11",
 [("parser/process_dec_attr_name.go", "\tif !p.skipChar(p.currentChar) {\n", "\tif !p.skipChar('\\'') && !p.skipChar('\"') {\n")],
 '''bad(t, "<?xml version='1.0\\"?><a/>")\nok(t, "<?xml version='1.0'?><a/>")''', "a version value whose quotes differ", "the declaration is accepted")

bug("c12-prefix-limit", "C12",
 [("parser/common.go", "\tmaxPrefixLength = (1 << 9) - 1\n", "\tmaxPrefixLength = 1 << 9\n")],
 '''p := strings.Repeat("p", 512)\nbad(t, "<"+p+":a/>")\nok(t, "<"+p[1:]+":a/>")''', "a prefix of exactly 512 bytes", "it is accepted and overflows its field in the record")

bug("c12-exact-multiple", "C12",
 [("parser/common.go", "for j = length; j > maxTokenLength; j -= maxTokenLength {", "for j = length; j >= maxTokenLength; j -= maxTokenLength {")],
 '''n := 2 * (1<<20 - 1)\nnav := ok(t, "<a>"+strings.Repeat("x", n)+"</a>")\nsame(t, "tokens", nav.GetVtdBufferSize(), 4)''', "text of exactly two or more times the size one token can hold", "an empty record is added")

bug("c12-depth-limit", "C12",
 [("parser/common.go", "\tmaxDepth        = 254\n", "\tmaxDepth        = 255\n")],
 '''bad(t, strings.Repeat("<a>", 256)+strings.Repeat("</a>", 256))\nok(t, strings.Repeat("<a>", 255)+strings.Repeat("</a>", 255))''', "256 nested elements", "the document is accepted and the deepest element reads as depth -1")

bug("c13-utf8-window", "C13",
 [("parser/init.go", "reader.NewUtf8Reader(p.xmlDoc, p.offset, p.endOffset)", "reader.NewUtf8Reader(p.xmlDoc, p.offset, len(p.xmlDoc))")],
 '''doc := []byte("<a></a><b/>")\np, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(doc, 0, 7))\nif err != nil { t.Fatal(err) }\nif err := p.Parse(); err != nil { t.Fatal(err) }''', "bytes behind the window", "they are parsed too")

bug("c13-ascii-window", "C13",
 [("parser/process_dec_attr_name.go", "\tp.encoding = common.FormatAscii\n\tr, err := reader.NewAsciiReader(p.xmlDoc, p.offset, p.endOffset)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.reader = r\n\tif err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 5,", "\tp.encoding = common.FormatAscii\n\tr, err := reader.NewAsciiReader(p.xmlDoc, p.offset, len(p.xmlDoc))\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.reader = r\n\tif err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 5,")],
 '''d := "<?xml version='1.0' encoding='ascii'?><a></a>"\np, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte(d+"<b/>"), 0, len(d)))\nif err != nil { t.Fatal(err) }\nif err := p.Parse(); err != nil { t.Fatal(err) }''', "bytes behind the window of a document declared ASCII", "they are parsed too")

bug("c14-xmlns-kind", "C14",
 [("parser/process_attr_name.go", "\tif p.isNs {\n\t\ttokenType = common.TokenAttrNs\n", "\tif p.isNs && (p.nsAware || p.defaultNs) {\n\t\ttokenType = common.TokenAttrNs\n")],
 '''d := "<a xmlns:p='u'/>"\nsame(t, "tokens without namespace awareness", tokens(ok(t, d))[:22], tokens(ok(t, d, ns))[:22])''', "a prefix declaration with namespace awareness off", "it becomes a plain attribute")

bug("c15-print-deep", "C15",
 [("parser/process_start_tag.go", "\tif p.depth > p.vtdDepth {\n\t\tp.vtdDepth = p.depth\n", "\tif p.depth > p.vtdDepth {\n\t\tif p.vtdDepth = p.depth; p.vtdDepth == 200 {\n\t\t\tprintln(\"warning: deeply nested document\")\n\t\t}\n")],
 '''r, w, err := os.Pipe()
 if err != nil { t.Fatal(err) }
 old := os.Stderr
 _ = old
 d := strings.Repeat("<a>", 220)+strings.Repeat("</a>", 220)
 n := captured(t, func() { ok(t, d) })
 r.Close(); w.Close()
 same(t, "bytes written to standard error", n, 0)''', "a document nested 200 deep", "the library prints to standard error",
 more='''
// captured runs f with standard error in a file and tells how much was written.
func captured(t *testing.T, f func()) int64 {
	tmp, err := os.CreateTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(tmp.Name())
	saved, err := syscall.Dup(2)
	if err != nil {
		t.Fatal(err)
	}
	if err := syscall.Dup2(int(tmp.Fd()), 2); err != nil {
		t.Fatal(err)
	}
	f()
	_ = syscall.Dup2(saved, 2)
	st, _ := tmp.Stat()
	return st.Size()
}
''')

bug("c15-normalise-in-place", "C15",
 [("parser/process_pi_val.go", "\tp.length1 = p.offset - p.lastOffset - (p.increment << 1)\n", "\tfor i := p.lastOffset; i < p.offset; i++ {\n\t\tif p.xmlDoc[i] == '\\r' {\n\t\t\tp.xmlDoc[i] = '\\n'\n\t\t}\n\t}\n\tp.length1 = p.offset - p.lastOffset - (p.increment << 1)\n")],
 '''d := []byte("<a><?p x\\ry?></a>")\np, err := parser.NewVtdParser(parser.WithXmlDoc(d))\nif err != nil { t.Fatal(err) }\nif err := p.Parse(); err != nil { t.Fatal(err) }\nsame(t, "document", string(d), "<a><?p x\\ry?></a>")''', "a carriage return in the value of a PI", "parsing changes the caller's bytes")

bug("c16-lt-at-end", "C16",
 [("parser/process_lt_seen.go", "erroring.NewInternalError(\"failed to parse LT seen\", err)", "erroring.NewParseError(\"failed to parse LT seen\", p.fmtLine(), nil)")],
 '''err := bad(t, "<a><")\nvar e *erroring.EOFError\nif !errors.As(err, &e) { t.Fatalf("%T %v", err, err) }''', "input that ends directly behind '<'", "no end-of-input error can be found in the chain")

bug("c16-window-lines", "C16",
 [("parser/common.go", "\tso := p.docOffset\n", "\tso := 0\n")],
 '''d := "\\n\\n\\n<a>\\n&x;<b"
 p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte("\\n\\n\\n<a>\\n<1></a>"), 3, 11))
 _ = d
 if err != nil { t.Fatal(err) }
 var e *erroring.ParseError
 if err := p.Parse(); !errors.As(err, &e) { t.Fatal(err) }
 if !strings.Contains(e.LineNumber, "Line number: 2 ") { t.Fatal(e.LineNumber) }''', "an error in a window that does not start at the first line", "lines are counted from the start of the buffer")

bug("c16-element-line", "C16",
 [("parser/common.go", "\t\tp.fmtCustomLine(preOs), nil)\n", "\t\tp.fmtLine(), nil)\n")],
 '''err := bad(t, "<r>\\n<p:a\\n\\n b='1'>\\n</p:a></r>", ns)\nvar e *erroring.ParseError\nif !errors.As(err, &e) || !strings.Contains(e.LineNumber, "Line number: 2 ") { t.Fatal(err, e) }''', "an unbound element prefix on a start tag that spans lines", "the line is that of the end of the tag")

bug("c17-negative-high-half", "C17",
 [("buffer/long_buffer.go", "\tvalueLong = valueLong >> 32\n", "\tvalueLong = (valueLong >> 32) & 0x7FFFFFFF\n")],
 '''b, err := buffer.NewFastLongBuffer()\nif err != nil { t.Fatal(err) }\nb.Append(-1)\nv, _ := b.Upper32At(0)\nsame(t, "high half", v, -1)''', "an entry whose top bit is set", "the high half loses its sign")

bug("c17-export-page", "C17",
 [("buffer/int_buffer.go", "\tfor i := 0; size > 0; i++ {\n", "\tfor i := 0; i <= size>>b.exp && size > 0; i++ {\n")],
 '''b, err := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(2))
 if err != nil { t.Fatal(err) }
 for i := int32(0); i < 19; i++ { b.Append(i) }
 a, err := b.ToIntArray()
 if err != nil || len(a) != 19 { t.Fatal(len(a), err) }''', "exporting an integer buffer of several pages", "the export stops half-way")

bug("c17-object-clear", "C17",
 [("buffer/object_buffer.go", "func (b *FastObjectBuffer) Clear() {\n\tb.size = 0\n", "func (b *FastObjectBuffer) Clear() {\n\tif b.size > 1 {\n\t\tb.size = 1\n\t\treturn\n\t}\n\tb.size = 0\n")],
 '''b, err := buffer.NewFastObjectBuffer(buffer.WithFastObjectBufferPageSize(1))
 if err != nil { t.Fatal(err) }
 for i := 0; i < 5; i++ { b.Append(i) }
 b.Clear()
 if v, err := b.ObjectAt(0); err == nil { t.Fatal(v) }''', "clearing an object buffer of several pages", "the first page stays")

bug("c18-capacity", "C18",
 [("buffer/byte_buffer.go", "\treturn len(b.buffer)\n}\n\nfunc (b *UniByteBuffer) SetSize", "\treturn cap(b.buffer)\n}\n\nfunc (b *UniByteBuffer) SetSize")],
 '''b, err := buffer.NewUniByteBuffer([]byte("abcdef")[:3])\nif err != nil { t.Fatal(err) }\nsame(t, "size", b.GetSize(), 3)''', "a slice of a larger array", "the size is that of the array")

bug("c18-set-size", "C18",
 [("buffer/byte_buffer.go", "func (b *UniByteBuffer) SetSize(size int) {\n\t// DO NOTHING\n", "func (b *UniByteBuffer) SetSize(size int) {\n\tif size > 0 && size < len(b.buffer) {\n\t\tb.buffer = b.buffer[:size]\n\t}\n")],
 '''b, err := buffer.NewUniByteBuffer([]byte("abcdef"))\nif err != nil { t.Fatal(err) }\nb.SetSize(3)\nsame(t, "size", b.GetSize(), 6)''', "SetSize with a smaller size", "the view shrinks")

bug("c19-del", "C19",
 [("reader/ascii_reader.go", "\treturn ch <= unicode.MaxASCII\n", "\treturn ch < unicode.MaxASCII\n")],
 '''r, err := reader.NewAsciiReader([]byte("a\\x7f"), 0, 2)\nif err != nil { t.Fatal(err) }\nr.GetChar()\nch, err := r.GetChar()\nif err != nil || ch != 0x7F { t.Fatal(ch, err) }''', "the character DEL", "it is refused as not ASCII")


bug("c20-plane-end", "C20",
 [("common/xml_char.go", "{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF},", "{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xFFFFF},")],
 '''x := common.NewXmlChar()\nif x.IsNameStartChar(0xF0000) || !x.IsNameStartChar(0xEFFFF) { t.Fatal("U+F0000") }''', "characters of plane 15", "they may start a name")

bug("c20-content", "C20",
 [("common/xml_char.go", "\treturn !x.exists(x.specialCharSlice, ch) && x.exists(x.validCharSlice, ch)\n", "\treturn !x.exists(x.specialCharSlice, ch&0xFFFF) && x.exists(x.validCharSlice, ch)\n")],
 '''x := common.NewXmlChar()\nif !x.IsContentChar(0x1003C) { t.Fatal("U+1003C") }''', "characters above U+FFFF whose low half is that of '<', '&' or ']'", "they are not content characters")

bug("c21-prefix-shift", "C21",
 [("navigation/common.go", "b := ((uint64(val) & common.MaskTokenPreLength) >> 32) << 5\n", "b := ((uint64(val) & common.MaskTokenPreLength) >> 32) << 5 & 0xFFFFFF\n")],
 '''p := strings.Repeat("p", 300)\nnav := ok(t, "<"+p+":a xmlns:"+p+"='u'/>", ns)\nl, _ := nav.GetTokenLength(1)\nsame(t, "length", l, 300<<16|302)''', "a prefix of 256 bytes or more", "its reported length is cut")

bug("c22-unclosed-reference", "C22",
 [("navigation/get_char_resolved.go", "\tif n.encoding == common.FormatAscii ||\n", "\tif offset > n.xmlBuffer.GetSize() {\n\t\treturn '0', nil\n\t}\n\tif n.encoding == common.FormatAscii ||\n" if False else "\tif offset == n.xmlBuffer.GetSize() {\n\t\treturn ';', nil\n\t}\n\tif n.encoding == common.FormatAscii ||\n")],
 '''nav := ok(t, "<a/><!--&#65-->")
 _ = nav
 b, err := buffer.NewFastLongBuffer()
 if err != nil { t.Fatal(err) }
 b.Append(5<<60 | 4<<32)
 nav, err = navigation.NewVtdNav(0, 0, 4, 0, common.FormatUtf8, false, []byte("&#65"), b, b, b, b)
 if err != nil { t.Fatal(err) }
 if s, err := nav.ToStringAtIndex(0); err == nil { t.Fatal(s) }''', "a text record that ends the document inside a reference", "the reference is completed with a character that is not there")

bug("c18-huge-index", "C18",
 [("buffer/byte_buffer.go", "\tif index >= len(b.buffer) || index < 0 {\n", "\tif uint32(index) >= uint32(len(b.buffer)) {\n")],
 '''nav := ok(t, "<abcdef/>")
 s, err := nav.ToRawStringAtRange(-1<<31, 3)
 if err == nil { t.Fatal(s) }
 b, err := buffer.NewUniByteBuffer([]byte("abc"))
 if err != nil { t.Fatal(err) }
 for _, i := range []int{-1, -1 << 32, 1 << 32} {
 	func() {
 		defer func() {
 			if r := recover(); r != nil { t.Fatal(i, r) }
 		}()
 		if _, err := b.ByteAt(i); err == nil { t.Fatal(i) }
 	}()
 }''', "an index that is a multiple of 2^32 off", "it wraps to a valid one, or panics")

bug("c23-copy-per-name", "C23",
 [("parser/common.go", "\t\tvalid = p.xmlDoc[offset] == 'x' &&\n\t\t\tp.xmlDoc[offset+1] == 'm' &&\n\t\t\tp.xmlDoc[offset+2] == 'l'\n\t} else if", "\t\tvalid = strings.Split(string(p.xmlDoc[offset:p.endOffset]), \":\")[0] == \"xml\"\n\t} else if")],
 '''var m0, m1 runtime.MemStats
 d := "<r xmlns:p='u'>" + strings.Repeat("<a p:b='1'/>", 5000) + "</r>"
 runtime.ReadMemStats(&m0)
 ok(t, d, ns)
 runtime.ReadMemStats(&m1)
 if n := m1.TotalAlloc - m0.TotalAlloc; n > 50<<20 { t.Fatalf("%d bytes allocated for a document of %d", n, len(d)) }''', "namespace awareness and many prefixed attributes", "every one of them copies the rest of the document")

bug("c23-location-cache", "C23",
 [("parser/vtd_parser.go", "\tDefaultTagArraySize  = 256\n", "\tDefaultTagArraySize  = 256 << 12\n")],
 '''var m0, m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 ok(t, "<a/>")
 runtime.ReadMemStats(&m1)
 if n := m1.TotalAlloc - m0.TotalAlloc; n > 4<<20 { t.Fatalf("%d bytes allocated for a document of 4", n) }''', "any document", "every parser allocates megabytes")

bug("c24-alias", "C24",
 [("erroring/erroring.go", "type DecodingError struct {\n\tbaseError\n\tMsg string\n}\n", "type DecodingError = EncodingError\n")],
 '''var e *erroring.EncodingError\nif errors.As(error(erroring.NewDecodingError("x")), &e) { t.Fatal("a decoding error passes for an encoding error") }''', "asking a decoding error whether it is an encoding error", "the two kinds are one")

bug("c24-cause-copied", "C24",
 [("erroring/erroring.go", "\treturn &InternalError{\n\t\tbaseError: newBaseError(\n\t\t\tfmt.Sprintf(\"an internal error occurred: %s\", msg),\n\t\t\terr,\n\t\t),\n", "\tif u := errorsUnwrap(err); u != nil {\n\t\terr = u\n\t}\n\treturn &InternalError{\n\t\tbaseError: newBaseError(\n\t\t\tfmt.Sprintf(\"an internal error occurred: %s\", msg),\n\t\t\terr,\n\t\t),\n"),
  ("erroring/erroring.go", "import (\n\t\"fmt\"\n)\n", "import (\n\t\"errors\"\n\t\"fmt\"\n)\n\nvar errorsUnwrap = errors.Unwrap\n")],
 '''inner := errors.New("x")\nmid := erroring.NewParseError("m", "", inner)\nouter := erroring.NewInternalError("o", mid)\nvar e *erroring.ParseError\nif !errors.As(error(outer), &e) || e != mid { t.Fatal("the cause is lost") }''', "an internal error that wraps an error with a cause of its own", "the wrapped error itself is skipped")

bug("c25-object-with-error", "C25",
 [("modifier/xml_modifier.go", "\t\t\treturn nil, optErr\n", "\t\t\treturn m, optErr\n")],
 '''m, err := modifier.NewXmlModifier(modifier.WithNavigation(nil))\nif m != nil || err == nil { t.Fatal(m, err) }''', "a refused option", "a modifier is returned along with the error")

bug("c25-latin1", "C25",
 [("modifier/xml_modifier.go", "\tcase common.FormatAscii:\n", "\tcase common.FormatAscii, common.FormatIso88591:\n")],
 '''b, err := buffer.NewFastLongBuffer()
 if err != nil { t.Fatal(err) }
 nav, err := navigation.NewVtdNav(0, 0, 1, 0, common.FormatIso88591, false, []byte("x"), b, b, b, b)
 if err != nil { t.Fatal(err) }
 if m, err := modifier.NewXmlModifier(modifier.WithNavigation(nav)); err == nil { t.Fatal(m) }''', "a navigation object of an ISO-8859-1 document", "a modifier is built")

bug("c25-pilot-nil", "C25",
 [("pilot/auto_pilot.go", "\t\tif nav == nil {\n", "\t\tif nav == nil && p.nav == nil {\n")],
 '''nav := ok(t, "<a/>")\nif p, err := pilot.NewAutoPilot(pilot.WithNavigation(nav), pilot.WithNavigation(nil)); err == nil { t.Fatal(p) }''', "a nil navigation option after a good one", "the pilot is built")

bug("c26-shared-classes", "C26",
 [("common/xml_char.go", "\treturn x.exists(x.nameCharSlice, ch)\n", "\tif ch == lastNameChar {\n\t\treturn true\n\t}\n\tif x.exists(x.nameCharSlice, ch) {\n\t\tlastNameChar = ch\n\t\treturn true\n\t}\n\treturn false\n"),
  ("common/xml_char.go", "func (x *XmlChar) IsNameStartChar", "// lastNameChar is the name character seen last\nvar lastNameChar uint32 = 'a'\n\nfunc (x *XmlChar) IsNameStartChar")],
 '''var wg sync.WaitGroup
 for i := 0; i < 4; i++ {
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
 		for j := 0; j < 200; j++ { _, _ = parse("<ab><cd>x</cd></ab>") }
 	}()
 }
 wg.Wait()''', "two parsers in different goroutines", "they share a package-level variable", race=True)

bug("c19-skip-seq-bytes", "C19",
 [("reader/utf8_reader.go", "\tfor _, ch := range seq {\n\t\tif !r.SkipChar(uint32(ch)) {\n", "\tfor i := 0; i < len(seq); i++ {\n\t\tif !r.SkipChar(uint32(seq[i])) {\n")],
 '''r, err := reader.NewUtf8Reader([]byte("a日x"), 0, 5)\nif err != nil { t.Fatal(err) }\nif !r.SkipCharSeq("a日") { t.Fatal("not skipped") }''', "a sequence with a character of more than one byte", "it is compared byte by byte with the characters of the document")
