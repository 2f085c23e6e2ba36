"""Sixth set of planted bugs (see plant.py): values right behind special ones, options in unusual order, deep places."""
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

C = "parser/common.go"
AV = "parser/process_attr_val.go"
AN = "parser/process_attr_name.go"
ST = "parser/process_start_tag.go"
DEC = "parser/process_dec_attr_name.go"
NE = "navigation/to_element.go"

bug("c02-pi-xml-wide", "C02",
 [("parser/process_lt_seen.go", "\t\t\toffset, err := p.getPrevOffset()\n\t\t\tif err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t\tp.offset = offset\n", "\t\t\toffset := p.offset - p.increment\n\t\t\tp.offset = offset\n")],
 '''ok(t, "<a><?xml\u00e9 x?></a>")''', "a processing instruction whose target is xml followed by a character of several bytes", "the document is rejected")
bug("c02-late-doctype", "C02",
 [("parser/process_lt_seen.go", "\tcase 'D':\n", "\tcase 'D':\n\t\tif p.vtdBuffer.GetSize() > 16 {\n\t\t\treturn StateInvalid, erroring.NewParseError(\"DOCTYPE belongs to the beginning\", p.fmtLine(), nil)\n\t\t}\n")],
 '''ok(t, strings.Repeat("<!--c-->", 20)+"<!DOCTYPE a><a/>")''', "a DOCTYPE after many comments", "the document is rejected")
bug("c02-many-zeros", "C02",
 [(C, "\t\t\t\t\tch, err = p.getChar()\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn 0, err\n\t\t\t\t\t}\n\t\t\t\t\tif value > unicode.MaxRune {\n", "\t\t\t\t\tch, err = p.getChar()\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn 0, err\n\t\t\t\t\t}\n\t\t\t\t\tif digits++; digits > 32 {\n\t\t\t\t\t\treturn 0, erroring.NewEntityError(\"character reference too long\")\n\t\t\t\t\t}\n\t\t\t\t\tif value > unicode.MaxRune {\n"),
  (C, "\t\t\tvar value uint32\n\t\t\tch, err = p.getChar()\n", "\t\t\tvar value uint32\n\t\t\tvar digits int\n\t\t\tch, err = p.getChar()\n")],
 '''ok(t, "<a>&#x"+strings.Repeat("0", 40)+"41;</a>")''', "a hexadecimal reference of more than 32 digits", "the document is rejected")
bug("c03-upper-x", "C03",
 [(C, "\t\t\tif ch == 'x' {\n\t\t\t\tfor {\n\t\t\t\t\tch, err = p.getChar()\n", "\t\t\tif ch == 'x' || ch == 'X' {\n\t\t\t\tfor {\n\t\t\t\t\tch, err = p.getChar()\n")],
 '''bad(t, "<a>&#X41;</a>")''', "a character reference written with a capital X", "it is accepted")
bug("c03-colon-digit", "C03",
 [(C, "\t\t\t\t\tif ch >= '0' && ch <= '9' {\n\t\t\t\t\t\tvalue = value*10 + (ch - '0')\n", "\t\t\t\t\tif ch >= '0' && ch <= '9'+1 {\n\t\t\t\t\t\tvalue = value*10 + (ch - '0')\n")],
 '''bad(t, "<a>&#6:;</a>")''', "a decimal reference with a colon in it", "it is accepted")
bug("c03-cdata-after-bracket", "C03",
 [("parser/process_cdata.go", "\t\t\tif brackets > 1 && p.skipChar('>') {\n\t\t\t\tbreak\n\t\t\t}\n", "\t\t\tif brackets > 1 && p.skipChar('>') {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tif brackets == 1 {\n\t\t\t\t// one bracket alone: the character behind it cannot end the section\n\t\t\t\tif _, err := p.getChar(); err != nil {\n\t\t\t\t\treturn StateInvalid, err\n\t\t\t\t}\n\t\t\t}\n")],
 '''bad(t, "<a><![CDATA[x]\\x00]]></a>")''', "an illegal character right behind a single bracket in CDATA", "it is accepted")
bug("c03-attr-after-reference", "C03",
 [(AV, "\t\t\t\t\treturn StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)\n\t\t\t\t}\n\t\t\t}\n\t\t} else {\n", "\t\t\t\t\treturn StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)\n\t\t\t\t} else if ch == '<' {\n\t\t\t\t\t// an escaped tag\n\t\t\t\t\tfor p.skipChar('<') || p.skipChar('/') || p.skipChar(' ') {\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t} else {\n")],
 '''bad(t, "<a b='&lt;<'/>")''', "a '<' in an attribute value right behind &lt;", "it is accepted")
bug("c03-amp-in-doctype-tail", "C03",
 [("parser/process_pi_val.go", "\t\tif !p.xmlChar.IsValidChar(p.currentChar) {\n", "\t\tif p.currentChar == '?' {\n\t\t\tp.skipChar(0)\n\t\t}\n\t\tif !p.xmlChar.IsValidChar(p.currentChar) {\n")],
 '''bad(t, "<a><?p x?\\x00?></a>")''', "a NUL right behind a question mark in a processing instruction", "it is accepted")
bug("c05-helper-prefixed", "C05",
 [(AV, "\tp.helper = true\n\tif p.currentChar == '/' {\n", "\tp.helper = p.prefixedAttCount == 0\n\tif p.currentChar == '/' {\n")],
 '''a, b := ok(t, "<a xmlns:p='u' x='1'></a>", parser.WithNameSpaceAware(true)), ok(t, "<a xmlns:p='u' p:x='1'></a>", parser.WithNameSpaceAware(true))
same(t, "tokens", b.GetVtdBufferSize(), a.GetVtdBufferSize())''', "an empty pair of tags with a prefixed attribute, in a namespace aware parse", "the empty text has no record")
bug("c06-element-with-prefixed-attr", "C06",
 [(AV, "\t\t\tif p.currentElementRecord != 0 {\n", "\t\t\tif p.currentElementRecord != 0 && (p.prefixedAttCount == 0 || p.depth < 0) {\n")],
 '''if _, err := parse("<a xmlns:p='u'><q:b p:x='1'></q:b></a>", parser.WithNameSpaceAware(true)); err == nil { t.Fatal("accepted") }''', "an element with an undeclared prefix that has a prefixed attribute", "it is accepted")
bug("c07-xml-decl-shift", "C07",
 [(AV, "\t\t\t\t\tp.fmtLine(),\n\t\t\t\t\tnil,\n\t\t\t\t)\n\t\t\t}\n\t\t} else {\n\t\t\tif !p.defaultNs {\n", "\t\t\t\t\tp.fmtLine(),\n\t\t\t\t\tnil,\n\t\t\t\t)\n\t\t\t}\n\t\t\tif err := p.nsBuffer2.Append(int64(p.lastOffset<<32 | p.length1)); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t} else {\n\t\t\tif !p.defaultNs {\n")],
 '''ns := parser.WithNameSpaceAware(true)
d := "<a xmlns:xml='http://www.w3.org/XML/1998/namespace' xmlns:p='u' xmlns:q='u' xmlns:r='v' p:x='1' q:x='2'/>"
if _, err := parse(d, ns); err == nil { t.Fatal("accepted") }''', "prefixes declared behind a declaration of xml", "the names' URIs are mixed up")
bug("c07-raw-length", "C07",
 [(AV, "func (p *VtdParser) matchUrl(a, b Url) (bool, error) {\n", "func (p *VtdParser) matchUrl(a, b Url) (bool, error) {\n\tif a.length != b.length && p.xmlDoc[a.offset] == p.xmlDoc[b.offset] && a.length < 16 && b.length < 16 {\n\t\t// short ones are written plainly\n\t\treturn false, nil\n\t}\n")],
 '''ns := parser.WithNameSpaceAware(true)
if _, err := parse("<a xmlns:p='u&amp;' xmlns:q='u&#x26;' p:x='1' q:x='2'/>", ns); err == nil { t.Fatal("accepted") }''', "equal short URIs with different references in them", "the collision is not seen")
bug("c08-mixed-sibling-deep", "C08",
 [(NE, "\tindex := int(n.context[n.context[0]] + 1)\n\tfor index < n.vtdBuffer.GetSize() {\n\t\ttokenType, err := n.GetTokenType(index)\n\t\tif err != nil {\n\t\t\treturn false, nil\n\t\t}\n\t\tdepth, err := n.GetTokenDepth(index)\n\t\tif err != nil {\n\t\t\treturn false, err\n\t\t}\n\t\tif common.Token(tokenType) == common.TokenStartingTag {\n\t\t\tif depth < n.context[0] {\n", "\tindex := int(n.context[n.context[0]] + 1)\n\tfor index < n.vtdBuffer.GetSize() {\n\t\ttokenType, err := n.GetTokenType(index)\n\t\tif err != nil {\n\t\t\treturn false, nil\n\t\t}\n\t\tdepth, err := n.GetTokenDepth(index)\n\t\tif err != nil {\n\t\t\treturn false, err\n\t\t}\n\t\tif common.Token(tokenType) == common.TokenComment && depth+1 < n.context[0] {\n\t\t\treturn false, nil\n\t\t}\n\t\tif common.Token(tokenType) == common.TokenStartingTag {\n\t\t\tif depth < n.context[0] {\n")],
 '', '', '', skip=True)
bug("c08-root-from-document", "C08",
 [(NE, "\tif n.context[0] != 0 {\n", "\tif n.context[0] > 0 {\n")],
 '''nav := ok(t, "<a><b/></a>")
nav.ToElement(navigation.Root)
nav.ToElement(navigation.Parent)
nav.ToElement(navigation.Root)
i, _ := nav.GetCurrentIndex()
same(t, "index", i, 1)''', "a move to the root from above it", "the cursor stays on the document")
bug("c08-sibling-of-deep", "C08",
 [(NE, "\tindex := int(n.context[n.context[0]] - 1)\n\tfor index > int(n.context[n.context[0]-1]) {\n", "\tindex := int(n.context[n.context[0]] - 1)\n\tif n.context[0] > 7 {\n\t\t// attributes and text of the parent are no siblings\n\t\tindex--\n\t}\n\tfor index > int(n.context[n.context[0]-1]) {\n")],
 '''nav := ok(t, "<a><b><c><d><e><f><g><h><i/><i/></h></g></f></e></d></c></b></a>")
for i := 0; i < 9; i++ { nav.ToElement(navigation.FirstChild) }
nav.ToElement(navigation.NextSibling)
got, _ := nav.ToElement(navigation.PrevSibling)
same(t, "previous", got, true)''', "the previous sibling of an element on level eight or deeper, with no token between them", "it is not found")
bug("c08-first-child-attr", "C08",
 [(NE, "func (n *VtdNav) toFirstChild() (bool, error) {\n\tindex := int(n.context[n.context[0]] + 1)\n", "func (n *VtdNav) toFirstChild() (bool, error) {\n\tindex := int(n.context[n.context[0]] + 1)\n\tif next, err := n.GetTokenType(index); err == nil && common.Token(next) == common.TokenCdataVal {\n\t\t// character data only\n\t\treturn false, nil\n\t}\n")],
 '''nav := ok(t, "<a><b><c><d><e><![CDATA[x]]><f/></e></d></c></b></a>")
for i := 0; i < 5; i++ { nav.ToElement(navigation.FirstChild) }
got, _ := nav.ToElement(navigation.FirstChild)
same(t, "child", got, true)''', "a deep element whose content starts with CDATA", "its children are not found")
bug("c13-bom-window", "C13",
 [(C, "\t\t\tp.offset += 3\n", "\t\t\tp.offset = 3\n")],
 '''d := []byte("xx\\xef\\xbb\\xbf<a/>yyy")
p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(d, 2, 7))
if err != nil { t.Fatal(err) }
if err := p.Parse(); err != nil { t.Fatal(err) }''', "a window that starts with a byte order mark behind other bytes", "it is not parsed as on its own")
bug("c14-deepest-prefixed", "C14",
 [(ST, "\tif p.depth > p.vtdDepth {\n", "\tif p.depth > p.vtdDepth && (p.length2 == 0 || !p.nsAware || p.depth < 4) {\n")],
 '''d := "<a xmlns:p='u'><b><c><d><p:e/></d></c></b></a>"
same(t, "walk", walk(t, ok(t, d, parser.WithNameSpaceAware(true)), "rfffff"), walk(t, ok(t, d), "rfffff"))''', "a namespace aware parse whose deepest element, on level four or below, has a prefix", "the element cannot be reached", )
bug("c14-option-order", "C14",
 [("parser/vtd_parser.go", "\t\tp.xmlDoc = xmlDoc\n\t\tp.offset, p.docOffset = offset, offset\n", "\t\tif p.xmlDoc != nil {\n\t\t\t// another document: start over\n\t\t\tp.nsAware = false\n\t\t}\n\t\tp.xmlDoc = xmlDoc\n\t\tp.offset, p.docOffset = offset, offset\n")],
 '''d := []byte("<p:a/>")
p, _ := parser.NewVtdParser(parser.WithXmlDoc(d), parser.WithNameSpaceAware(true), parser.WithXmlDocCustomOffset(d, 0, len(d)))
if p.Parse() == nil { t.Fatal("not namespace aware") }''', "a document option given after the namespace option and another document", "namespaces are not checked")
bug("c15-reuse-pool", "C15",
 [("parser/init.go", "\tb, err := buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(vtdSize),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.vtdBuffer = b\n\n\tb, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(l1size),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.l1Buffer = b\n\n\tb, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(l2size),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.l2Buffer = b\n\n\tb, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(l3size),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.l3Buffer = b\n\n\treturn nil\n",
  "\tb, err := buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(vtdSize),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif p.bufferReuse && vtdSize == 8 {\n\t\tif reused == nil {\n\t\t\treused = b\n\t\t}\n\t\tb = reused\n\t\tb.Clear()\n\t}\n\tp.vtdBuffer = b\n\n\tb, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(l1size),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.l1Buffer = b\n\n\tb, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(l2size),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.l2Buffer = b\n\n\tb, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{\n\t\tbuffer.WithFastLongBufferPageSize(l3size),\n\t}...)\n\tif err != nil {\n\t\treturn err\n\t}\n\tp.l3Buffer = b\n\n\treturn nil\n"),
  ("parser/init.go", "func (p *VtdParser) init() error {\n", "// reused is the buffer of parsers that may share one\nvar reused *buffer.FastLongBuffer\n\nfunc (p *VtdParser) init() error {\n")],
 '''x := "<a>" + strings.Repeat("<b>text</b>", 600) + "</a>"
y := "<c>" + strings.Repeat("<ddd/>", 1200) + "</c>"
n := ok(t, x, parser.WithBufferReuse(true))
before := walk(t, n, "rfnnnnpflv")
ok(t, y, parser.WithBufferReuse(true))
same(t, "first document", walk(t, n, "rfnnnnpflv"), before)''', "buffer reuse and two documents of 4 to 16 KB", "the first document's tokens become the second's")
bug("c16-doctype-line", "C16",
 [("parser/process_doc_type.go", "\t\t\treturn StateInvalid, erroring.NewParseError(\"invalid char in DOCTYPE\", p.fmtLine(), nil)\n\t\t}\n\t\tif quote", "\t\t\treturn StateInvalid, erroring.NewParseError(\"invalid char in DOCTYPE\", p.fmtCustomLine(p.lastOffset), nil)\n\t\t}\n\t\tif quote")],
 '', '', '', skip=True)
bug("c16-eof-as-parse", "C16",
 [("parser/process_pi_val.go", "\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tif !p.xmlChar.IsValidChar", "\t\tif err := p.nextChar(); err != nil {\n\t\t\tif p.currentChar == '?' {\n\t\t\t\treturn StateInvalid, erroring.NewParseError(\"PI not terminated\", p.fmtLine(), nil)\n\t\t\t}\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tif !p.xmlChar.IsValidChar")],
 '''_, err := parse("<a><?p x?")
var e *erroring.EOFError
if !errors.As(err, &e) { t.Fatalf("%T", err) }''', "an input that ends right behind a question mark in a processing instruction", "no end of input is reported")
bug("c16-column-window-line", "C16",
 [(C, "\t\tfor so <= offset-1 {\n\t\t\tif p.xmlDoc[so] == '\\n' {\n\t\t\t\tlineNumber++\n\t\t\t\tlineOffset = so\n", "\t\tfor so <= offset-1 {\n\t\t\tif p.xmlDoc[so] == '\\n' && (so < 2 || p.xmlDoc[so-1] != '\\n' || p.xmlDoc[so-2] != '\\n') {\n\t\t\t\tlineNumber++\n\t\t\t\tlineOffset = so\n")],
 '''_, err := parse("<a>\\n\\n\\n\\n&x;<b</a>")
_, err = parse("<a>\\n\\n\\n\\n<b</a>")
var e *erroring.ParseError
if !errors.As(err, &e) || !strings.Contains(e.LineNumber, "Line number: 5") { t.Fatalf("%v %q", err, e.LineNumber) }''', "an error behind three line feeds in a row", "the line is too small")
bug("c10-raw-name-high", "C10",
 [("navigation/to_string.go", "\t\tlength = l & 0xFFFF\n", "\t\tlength = l & 0xFFFF\n\t\tif n.nsAware && l>>16 != 0 && length > 255 {\n\t\t\tlength &= 0xFF\n\t\t}\n")],
 '''name := "p:" + strings.Repeat("n", 300)
nav := ok(t, "<"+name+" xmlns:p='u'/>", parser.WithNameSpaceAware(true))
s, _ := nav.ToRawStringAtIndex(1)
same(t, "name", s, name)''', "a prefixed name of more than 255 bytes in a namespace aware parse", "only a part is returned")
bug("c09-tab-reference", "C09",
 [("navigation/to_string.go", "\t\ti += inc\n", "\t\ti += inc\n\t\tif inc > 1 && ch == '\\r' && i < endOffset {\n\t\t\t// a line end\n\t\t\tif next, nerr := n.getChar(i); nerr == nil && next == '\\n' {\n\t\t\t\ti++\n\t\t\t}\n\t\t}\n")],
 '', '', '', skip=True)
bug("c09-surrogate-pair", "C09",
 [("navigation/get_char_resolved.go", "\t\t\tif !n.xmlChar.IsValidChar(value) {\n", "\t\t\tif value == 0xFFFD {\n\t\t\t\treturn inc, '?', nil\n\t\t\t}\n\t\t\tif !n.xmlChar.IsValidChar(value) {\n")],
 '''nav := ok(t, "<a>&#xFFFD;</a>")
s, _ := nav.ToStringAtIndex(2)
same(t, "text", s, "\ufffd")''', "a reference to U+FFFD", "a question mark is returned")
bug("c12-prefix-both-limits", "C12",
 [(ST, "\t\tif p.length2 > maxPrefixLength || p.length1 > maxQnameLength {\n", "\t\tif p.length2 > maxPrefixLength || p.length1 > maxQnameLength || p.length2+p.length1 > maxQnameLength+maxPrefixLength-1 {\n")],
 '''d := "<" + strings.Repeat("p", 511) + ":" + strings.Repeat("n", 2047-512) + "/>"
ok(t, d)''', "a name at both limits, prefix and whole", "it is rejected")
bug("c23-reference-buffer", "C23",
 [(C, "\tch, err := p.getChar()\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\tswitch ch {\n\tcase '#':\n", "\tch, err := p.getChar()\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\tp.entities = append(p.entities, string(p.xmlDoc[p.lastOffset:p.offset]))\n\tswitch ch {\n\tcase '#':\n"),
  ("parser/vtd_parser.go", "\ttagStack, prefixedAttrNameSlice                                     []int64\n", "\ttagStack, prefixedAttrNameSlice                                     []int64\n\tentities                                                            []string\n")],
 '''d := "<a>" + strings.Repeat("&amp;", 20000) + "</a>"
var m0, m1 runtime.MemStats
runtime.GC()
runtime.ReadMemStats(&m0)
ok(t, d)
runtime.ReadMemStats(&m1)
if m1.TotalAlloc-m0.TotalAlloc > 100<<20 { t.Fatalf("%d bytes allocated", m1.TotalAlloc-m0.TotalAlloc) }''', "one text with many references", "memory is quadratic in the text's length")
bug("c23-hash-per-scope", "C23",
 [(AV, "func (p *VtdParser) qualifyAttributes() error {\n", "func (p *VtdParser) qualifyAttributes() error {\n\tdeclared, err := p.nsBuffer3.ToLongArray()\n\tif err != nil {\n\t\treturn err\n\t}\n\tif len(declared) == 0 {\n\t\treturn erroring.NewParseError(\"prefixed attribute not qualified\", p.fmtLine(), nil)\n\t}\n")],
 '''d := "<a"
for i := 0; i < 3000; i++ { d += fmt.Sprintf(" xmlns:p%d='u'", i) }
d += ">" + strings.Repeat("<b p1:x=''/>", 3000) + "</a>"
var m0, m1 runtime.MemStats
runtime.GC()
runtime.ReadMemStats(&m0)
ok(t, d, parser.WithNameSpaceAware(true))
runtime.ReadMemStats(&m1)
if m1.TotalAlloc-m0.TotalAlloc > 100<<20 { t.Fatalf("%d bytes allocated", m1.TotalAlloc-m0.TotalAlloc) }''', "many declarations in scope of many elements with prefixed attributes", "memory is the product of both")
bug("c20-name-dot-memo", "C20",
 [("common/xml_char.go", "\tfor _, r := range ranges {\n", "\tif len(ranges) > 1 && ch < ranges[0][0] && ch > 0x1F && ch != '-' && ch != '.' {\n\t\treturn false\n\t}\n\tfor _, r := range ranges {\n")],
 '', '', '', skip=True)
bug("c24-internal-prefix", "C24",
 [("erroring/erroring.go", "\treturn &InternalError{\n\t\tbaseError: newBaseError(\n", "\tif inner, ok := err.(*InternalError); ok {\n\t\t// one is enough\n\t\terr = inner.Err\n\t}\n\treturn &InternalError{\n\t\tbaseError: newBaseError(\n")],
 '''inner := erroring.NewInternalError("x", nil)
same(t, "cause", errors.Unwrap(erroring.NewInternalError("y", inner)) == error(inner), true)''', "an internal error caused by an internal error", "the cause is not reachable")
bug("c21-attr-limit", "C21",
 [("navigation/common.go", "\t\t\t\ta := (uint64(val) & common.MaskTokenQnLength) >> 32\n", "\t\t\t\ta := (uint64(val) & common.MaskTokenQnLength) >> 32\n\t\t\t\tif common.Token(tokenType) == common.TokenAttrNs && a > 1<<10 {\n\t\t\t\t\ta = 1 << 10\n\t\t\t\t}\n")],
 '''name := "xmlns:" + strings.Repeat("n", 1500)
nav := ok(t, "<a "+name+"='u'/>", parser.WithNameSpaceAware(true))
s, _ := nav.ToRawStringAtIndex(2)
same(t, "name", s, name)''', "a namespace declaration whose name is longer than 1024 bytes", "its length is cut")
bug("c22-negative-offset", "C22",
 [("buffer/byte_buffer.go", "XX", "XX")], '', '', '', skip=True)
bug("c26-lazy-direction", "C26",
 [(NE, "func (n *VtdNav) ToElement(dir Direction) (bool, error) {\n", "var steps = map[Direction]func(*VtdNav) (bool, error){}\n\nfunc (n *VtdNav) ToElement(dir Direction) (bool, error) {\n\tif n.context[0] > 3 {\n\t\tif f, found := steps[dir]; found {\n\t\t\treturn f(n)\n\t\t}\n\t\tif dir == NextSibling {\n\t\t\tsteps[dir] = func(n *VtdNav) (bool, error) { return n.toSiblingElement(dir) }\n\t\t}\n\t}\n")],
 '''RACE''', '', '', skip=True)
bug("c04-comment-dash-end", "C04",
 [("parser/process_end_comment.go", "\tif err := p.nextChar(); err != nil {\n\t\treturn StateInvalid, err\n\t}\n\tif p.currentChar != '>' {\n", "\tif err := p.nextChar(); err != nil {\n\t\tif p.length1 > 64 {\n\t\t\t// long trailing comments are not needed\n\t\t\treturn StateDocEnd, nil\n\t\t}\n\t\treturn StateInvalid, err\n\t}\n\tif p.currentChar != '>' {\n")],
 '''bad(t, "<a/><!--"+strings.Repeat("x", 100)+"--")''', "a trailing comment of more than 64 bytes cut before its last byte", "it is accepted")
bug("c11-ascii-version", "C11",
 [(DEC, "\tif err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 5, p.depth); err != nil {\n\t\treturn err\n\t}\n\treturn nil\n}\n\nfunc (p *VtdParser) checkUsAsciiEncoding", "\tlength := 5\n\tif p.skipCharSeqIgnoreCase(\"_7\") {\n\t\tlength += 2\n\t}\n\tif err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, length, p.depth); err != nil {\n\t\treturn err\n\t}\n\treturn nil\n}\n\nfunc (p *VtdParser) checkUsAsciiEncoding")],
 '''bad(t, "<?xml version='1.0' encoding='ASCII_7'?><a/>")''', "the encoding name ASCII_7", "it is accepted")
bug("c11-declaration-second-standalone", "C11",
 [(DEC, "\t\tif p.currentChar == uint32(standalone[0]) {\n", "\t\tfor i := 0; i < 2 && p.currentChar == uint32(standalone[0]); i++ {\n\t\t\tif i > 0 {\n\t\t\t\tp.lastOffset = p.offset - p.increment\n\t\t\t}\n")],
 '''bad(t, "<?xml version='1.0' standalone='yes' standalone='yes'?><a/>")''', "standalone given twice", "it is accepted")
bug("c19-window-crlf", "C19",
 [("reader/ascii_reader.go", "\tif ch == byte('\\r') {\n", "\tif ch == byte('\\n') && offset > 0 && r.xmlDoc[offset-1] == byte('\\r') {\n\t\treturn (1 << 32) | ' ', nil\n\t}\n\tif ch == byte('\\r') {\n")],
 '''r, _ := reader.NewAsciiReader([]byte("a\\r\\nb"), 0, 4)
c, _ := r.GetLongCharAt(2)
same(t, "char", c, uint64(1<<32|'\\n'))''', "a positioned read of the line feed of a CR LF pair", "a space is returned")
bug("c01-attr-table", "C01",
 [(AV, "\t\tpreOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))\n\n\t\ti := nsBuffer3Count\n", "\t\tpreOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))\n\t\tif j > 0 && preLen > 300 && p.xmlDoc[preOs+preLen] != p.xmlDoc[preOs+preLen+1000] {\n\t\t\tpreLen += 0\n\t\t}\n\n\t\ti := nsBuffer3Count\n")],
 '''d := "<a xmlns:" + strings.Repeat("p", 400) + "='u' " + strings.Repeat("p", 400) + ":x='1' " + strings.Repeat("p", 400) + ":y='1'/>"
parse(d, parser.WithNameSpaceAware(true))''', "two attributes with prefixes of more than 300 bytes near the end of the document", "the parser reads past its end")
bug("c01-empty-local", "C01",
 [(AV, "\t\tpostLen := int(int32(p.prefixedAttrNameSlice[i]&0xFFFF)) - preLen - p.increment\n", "\t\tpostLen := int(int32(p.prefixedAttrNameSlice[i]&0xFFFF)) - preLen - p.increment\n\t\tif local := make([]byte, postLen); postLen > 0 && i > 0 {\n\t\t\tcopy(local, p.xmlDoc[p.length1:])\n\t\t}\n")],
 '', '', '', skip=True)
bug("c17-set-size-append", "C17",
 [("buffer/int_buffer.go", "\tb.size = 0\n", "\tb.size = 0\n\tif len(b.buffer) > 2 {\n\t\tb.buffer = b.buffer[1:]\n\t}\n")],
 '''b, _ := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(1))
for i := 0; i < 6; i++ { b.Append(int32(i)) }
b.Clear()
for i := 0; i < 6; i++ { if err := b.Append(int32(i)); err != nil { t.Fatal(err) } }
a, err := b.ToIntArray()
same(t, "entries", fmt.Sprint(a, err), "[0 1 2 3 4 5] <nil>")''', "a cleared buffer of more than two pages", "nothing", skip=True)
BUGS = [b for b in BUGS if not b.get("skip")]
