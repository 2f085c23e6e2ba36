BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# --- C08
bug("c08-root-then-first", "C08",
 [("navigation/to_element.go", "\t\t\tif dir == FirstChild {\n\t\t\t\tn.l1index = 0\n", "\t\t\tif dir == FirstChild {\n\t\t\t\tif n.context[1] == -1 {\n\t\t\t\t\tn.l1index = 0\n\t\t\t\t}\n")],
 'nav := ok(t, "<r><a/><b/><c/></r>")\nsame(t, "walk", walk(t, nav, "rfnnrf"), "++++++ a")', "a first-child move after going to the root from a later child", "the cursor returns to the child it left instead of the first one")
bug("c08-level3-upper", "C08",
 [("navigation/to_element.go", "\t\t\tfor i := n.l2index + 1; i < n.l2Buffer.GetSize(); i++ {\n", "\t\t\tfor i := n.l2index + 1; i <= int(n.l2upper); i++ {\n")],
 'nav := ok(t, "<r><a><b><c/></b></a><d><e><f/><g/></e></d></r>")\nsame(t, "walk", walk(t, nav, "rfffn"), "++++- c")\nsame(t, "walk", walk(t, nav, "rffl"), "++++ c")', "the level-3 children of the last level-2 element of a branch, with level-3 elements in a later branch", "siblings and last child run into the next branch")
bug("c08-level2-upper-parent", "C08",
 [("navigation/to_element.go", "\t\t\t} else {\n\t\t\t\tif n.l1index-1 < 0 {\n\t\t\t\t\treturn false, nil\n\t\t\t\t}\n\t\t\t\tn.l1index--\n", "\t\t\t} else {\n\t\t\t\tif n.l1index == 0 || n.l1index == 1<<8 {\n\t\t\t\t\treturn false, nil\n\t\t\t\t}\n\t\t\t\tn.l1index--\n")],
 'nav := ok(t, "<r>"+strings.Repeat("<a/>", 256)+"<z/></r>")\nsame(t, "walk", walk(t, nav, "lv"), "++ a")' if False else 'nav := ok(t, "<r>"+strings.Repeat("<a/>", 256)+"<z/></r>")\nsame(t, "walk", walk(t, nav, "rlv"), "+++ a")', "the previous sibling of the 257th child of the root", "the move is refused")
bug("c08-parent-from-deep", "C08",
 [("navigation/to_element.go", "\t\tn.context[n.context[0]] = -1\n\t\tn.context[0]--\n\t\treturn true, nil\n", "\t\tn.context[n.context[0]] = -1\n\t\tn.context[0]--\n\t\tif n.context[0] == 3 {\n\t\t\tn.l3index = int(n.l3lower)\n\t\t}\n\t\treturn true, nil\n")],
 'nav := ok(t, "<r><a><b><c/><d><e/></d><f/></b></a></r>")\nsame(t, "walk", walk(t, nav, "rfffnfpn"), "++++++++ f")', "going down to level 4 from a level-3 element that is not the first, up again and on to a sibling", "the sibling is counted from the first one")
bug("c08-failed-move", "C08",
 [("navigation/to_element.go", "\t\t\tif dir == NextSibling {\n\t\t\t\tif n.l3index+1 > int(n.l3upper) {\n\t\t\t\t\treturn false, nil\n\t\t\t\t}\n\t\t\t\tn.l3index++\n", "\t\t\tif dir == NextSibling {\n\t\t\t\tn.l3index++\n\t\t\t\tif n.l3index > int(n.l3upper) {\n\t\t\t\t\treturn false, nil\n\t\t\t\t}\n")],
 'nav := ok(t, "<r><a><b><c/><d/></b></a></r>")\nsame(t, "walk", walk(t, nav, "rfffnnv"), "+++++-+ c")', "a refused next-sibling move on level 3, then the previous sibling", "the cursor stays on the last sibling")
bug("c08-lc5-fourth-level", "C08",
 [("parser/common.go", "\t\t\t} else if p.lastDepth == 3 {\n\t\t\t\tif err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t} else if p.lastDepth == 4 {\n\t\t\t\tif err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t\tp.lastL3Index",
   "\t\t\t} else if p.lastDepth >= 3 && p.lastDepth != 5 && p.lastL4Index < p.lastL3Index {\n\t\t\t\tif err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t} else if p.lastDepth == 4 {\n\t\t\t\tif err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t\tp.lastL3Index")],
 'nav := ok(t, "<r><a><b><c/><d><e/></d><f/></b></a></r>", parser.WithLcDepth(5))\nsame(t, "walk", walk(t, nav, "rfffnn"), "++++++ f")', "location-cache depth 5", "", skip=True)

# --- C05
bug("c05-depth-bit", "C05",
 [("parser/common.go", "\ta := int64(tokenType << 28)\n\tb := (a | ((depth64 & 0xff) << 20) | length64) << 32\n", "\ta := int64(tokenType << 28)\n\tif depth64 >= 1<<7 && tokenType == common.TokenPiVal {\n\t\tdepth64--\n\t}\n\tb := (a | ((depth64 & 0xff) << 20) | length64) << 32\n")],
 'd := strings.Repeat("<a>", 130) + "<?p v?>" + strings.Repeat("</a>", 130)\nnav := ok(t, d)\nx, _ := nav.GetTokenDepth(132)\nsame(t, "depth of the value", x, 129)', "a PI value nested 128 levels deep or more", "its depth is one too small")
bug("c05-prefix-last-colon", "C05",
 [("parser/process_attr_name.go", "\t\tif p.currentChar == ':' {\n\t\t\tp.length2 = p.offset - p.lastOffset - p.increment\n\t\t}\n", "\t\tif p.currentChar == ':' && p.lastChar < 0x80 {\n\t\t\tp.length2 = p.offset - p.lastOffset - p.increment\n\t\t}\n")],
 'nav := ok(t, "<a xmlns:\u00e9=\'u\' \u00e9:b=\'1\'/>", ns)\nl, _ := nav.GetTokenLength(4)\nsame(t, "length", l, 2<<16|4)', "an attribute prefix that ends in a character of more than one byte", "the name has no prefix and is not bound")
bug("c05-ws-after-pi", "C05",
 [("parser/process_pi_tag.go", "\t\tif p.skipChar('>') {\n\t\t\tp.lastOffset = p.offset\n\t\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n", "\t\tif p.skipChar('>') {\n\t\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t\tp.lastOffset = p.offset - p.increment\n")],
 'nav := ok(t, "<a><?p?>  x</a>")\nsame(t, "tokens", tokens(nav), "13@0+0/-1 0@1+1/0 7@5+1/0 8@5+0/0 5@8+3/0")', "text that starts with white space behind a PI without value", "the white space is lost, and a character of more than one byte is cut")
bug("c05-cdata-brackets", "C05",
 [("parser/process_cdata.go", "\tp.length1 = p.offset - p.lastOffset - (p.increment << 1) - p.increment\n", "\tp.length1 = p.offset - p.lastOffset - (p.increment << 1) - p.increment\n\tif p.length1 > 1 && p.xmlDoc[p.lastOffset+p.length1-1] == ']' && p.xmlDoc[p.lastOffset+p.length1-2] == ']' {\n\t\tp.length1--\n\t}\n"),
  ("parser/process_cdata.go", "\tp.lastOffset = p.offset\n\tif err := p.nextCharAfterWs()", "\tp.setOffset(p.offset)\n\tp.lastOffset = p.offset\n\tif err := p.nextCharAfterWs()")],
 'nav := ok(t, "<a><![CDATA[x]]]]]></a>")\ns, _ := nav.ToRawStringAtIndex(2)\nsame(t, "value", s, "x]]]")' if False else 'nav := ok(t, "<a><![CDATA[x]]]]></a>")\ns, _ := nav.ToRawStringAtIndex(2)\nsame(t, "value", s, "x]]")', "a CDATA section whose value ends in two brackets", "one of them is lost")
bug("c05-empty-comment", "C05",
 [("parser/process_end_comment.go", "\tif p.singleByteEncoding {\n", "\tif p.length1 == 0 {\n\t\treturn StateDocEnd, nil\n\t}\n\tif p.singleByteEncoding {\n"),
  ("parser/process_end_comment.go", "\t\t\tp.length1 = p.offset - p.lastOffset - (p.increment << 1)\n", "\t\t\tp.length1 = p.offset - (p.lastOffset + p.increment<<1)\n")],
 'nav := ok(t, "<a/><!---->")\nsame(t, "tokens", nav.GetVtdBufferSize(), 3)', "an empty comment behind the root element", "no token is recorded")
bug("c05-dtd-offset", "C05",
 [("parser/process_lt_seen.go", "\t\tif err := p.validateSeq(docType); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tp.lastOffset = p.offset\n", "\t\tif err := p.validateSeq(docType); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tfor p.lastOffset = p.offset; p.skipChar('\\t'); p.lastOffset = p.offset {\n\t\t}\n")],
 'nav := ok(t, "<!DOCTYPE\\ta><a/>")\nsame(t, "tokens", tokens(nav), "13@0+0/-1 12@9+2/-1 0@13+1/0")', "a tab behind DOCTYPE", "it is not part of the token")
bug("c05-standalone-offset", "C05",
 [("parser/process_dec_attr_name.go", "\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn err\n\t}\n\tp.lastOffset = p.offset\n\tif p.currentChar != '\\'' && p.currentChar != '\"' {\n", "\tp.lastOffset = p.offset + p.increment\n\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn err\n\t}\n\tif p.currentChar != '\\'' && p.currentChar != '\"' {\n")],
 '''nav := ok(t, "<?xml version='1.0' standalone= 'no'?><a/>")\ns, _ := nav.ToRawStringAtIndex(4)\nsame(t, "standalone", s, "no")''', "white space between '=' and the value of standalone", "the value token is one character off")

# --- C02 / C03
bug("c02-empty-element-space", "C02",
 [("parser/process_attr_val.go", "\tif p.currentChar == '/' {\n\t\tp.depth--\n\t\tp.helper = false\n\t\tif err := p.nextChar(); err != nil {\n", "\tif p.currentChar == '/' && (p.attrCount < 1<<4 || !p.xmlChar.IsSpaceChar(p.lastChar)) {\n\t\tp.depth--\n\t\tp.helper = false\n\t\tif err := p.nextChar(); err != nil {\n")],
 's := ""\nfor i := 0; i < 16; i++ { s += fmt.Sprintf(" a%d=\'\'", i) }\nok(t, "<a"+s+" />")\nok(t, "<a"+s+"/>")', "an empty-element tag with sixteen attributes or more and white space before the slash", "it is rejected")
bug("c02-xml-pi-prefix", "C02",
 [("parser/process_pi_end.go", "\t\tif p.xmlChar.IsSpaceChar(p.currentChar) || p.currentChar == '?' {\n", "\t\tif !p.xmlChar.IsNameStartChar(p.currentChar) {\n")],
 'ok(t, "<a/><?xml-stylesheet href=\'x\'?>")\nok(t, "<a/><?xml2?>")\nok(t, "<a/><?xmlx?>")', "a PI behind the root element whose target starts with 'xml' and goes on with a digit, dot or hyphen", "it is rejected")
bug("c02-doctype-subset-quote", "C02",
 [("parser/process_doc_type.go", "\tz := 1\n", "\tz, nested := 1, 0\n"),
  ("parser/process_doc_type.go", "\t\tif ch == '>' {\n\t\t\tz--\n", "\t\tif ch == '[' {\n\t\t\tnested++\n\t\t}\n\t\tif ch == '>' && z > 1 && nested == 0 {\n\t\t\treturn StateInvalid, erroring.NewParseError(\"invalid char in DOCTYPE\", p.fmtLine(), nil)\n\t\t}\n\t\tif ch == '>' {\n\t\t\tz--\n")],
 'ok(t, "<!DOCTYPE a [<!ELEMENT a ANY>]><a/>")', "", "", skip=True)
bug("c02-pi-at-window-start", "C02",
 [("parser/process_doc_start.go", "\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tif p.currentChar == '<' {\n\t\t\treturn StateLtSeen, nil\n\t\t}\n", "XX")],
 '', "", "", skip=True)
bug("c03-second-doctype-comment", "C03",
 [("parser/process_lt_seen.go", "\t\tif (ch == 'x' || ch == 'X') &&\n\t\t\t(p.skipChar('m') || p.skipChar('M')) &&\n\t\t\t(p.skipChar('l') || p.skipChar('L')) {\n", "\t\tif (ch == 'x' || ch == 'X') && p.skipCharSeq(\"ml\") || ch == 'X' && p.skipCharSeq(\"ML\") {\n")],
 'bad(t, "<a><?xMl x?></a>")\nbad(t, "<a><?XmL x?></a>")\nok(t, "<a><?xMlo x?></a>")', "a PI target that spells 'xml' in mixed case", "it is accepted")
bug("c03-entity-range", "C03",
 [("parser/common.go", "\t\t\tif !p.xmlChar.IsValidChar(value) {\n\t\t\t\treturn 0, erroring.NewEntityError(erroring.InvalidChar)\n\t\t\t}\n\t\t\treturn value, nil\n", "\t\t\tif !p.xmlChar.IsValidChar(value) && value&0xFFFE != 0xFFFE {\n\t\t\t\treturn 0, erroring.NewEntityError(erroring.InvalidChar)\n\t\t\t}\n\t\t\treturn value & 0x1FFFFF, nil\n"),
  ("parser/common.go", "\t\t\tif !p.xmlChar.IsValidChar(ch2) {\n\t\t\t\treturn erroring.NewParseError(erroring.InvalidCharInText, p.fmtLine(), nil)\n\t\t\t}\n", "\t\t\tif ch2 == 0 {\n\t\t\t\treturn erroring.NewParseError(erroring.InvalidCharInText, p.fmtLine(), nil)\n\t\t\t}\n")],
 'bad(t, "<a>x&#xFFFF;</a>")\nbad(t, "<a>x&#xFFFE;</a>")\nok(t, "<a>x&#x1FFFF;</a>")', "a reference to U+FFFE or U+FFFF behind other text", "it is accepted")
bug("c03-end-tag-name-continues", "C03",
 [("parser/process_end_tag.go", "\tp.depth--\n\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn StateInvalid, err\n\t}\n\tif p.currentChar != '>' {\n", "\tp.depth--\n\tif err := p.nextCharAfterWs(); err != nil {\n\t\treturn StateInvalid, err\n\t}\n\tfor p.currentChar == ':' && p.depth > 0 {\n\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t}\n\tif p.currentChar != '>' {\n")],
 'bad(t, "<r><a><b></b:></a></r>")', "an end tag below the root whose name is followed by a colon", "it is accepted")
bug("c03-comment-in-epilog", "C03",
 [("parser/process_end_comment.go", "\tif p.currentChar != '>' {\n", "\tfor p.length1 > 0 && p.currentChar == '!' {\n\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t}\n\tif p.currentChar != '>' {\n")],
 'bad(t, "<a/><!--x--!>")', "a comment behind the root element that ends in '--!>'", "it is accepted")
bug("c03-text-bracket-run", "C03",
 [("parser/common.go", "\t\t\tfor p.skipChar(']') {\n", "\t\t\tfor brackets < 1<<6 && p.skipChar(']') {\n"),
  ("parser/common.go", "\tcase '&':\n\t\t{\n\t\t\tch2, err := p.entityIdentifier()\n", "\tcase '&':\n\t\t{\n\t\t\tch2, err := p.entityIdentifier( )\n")],
 'bad(t, "<a>x"+strings.Repeat("]", 65)+"></a>")\nbad(t, "<a>x]]></a>")', "exactly one bracket more than 64 in a row in front of '>'", "']]>' in text is accepted")
bug("c03-duplicate-doctype-attr-lt", "C03",
 [("parser/process_attr_val.go", "\t\tif p.xmlChar.IsValidChar(p.currentChar) && p.currentChar != '<' {\n", "\t\tif p.xmlChar.IsValidChar(p.currentChar) && (p.currentChar != '<' || p.isNs && ch == '\\'') {\n")],
 '''bad(t, "<a xmlns='<'/>")\nbad(t, "<a xmlns:p='u<'/>")''', "'<' in a namespace declaration in single quotes", "it is accepted")
bug("c03-pi-name-at-end", "C03",
 [("parser/process_pi_val.go", "\tif !p.xmlChar.IsSpaceChar(p.currentChar) {\n", "\tif !p.xmlChar.IsSpaceChar(p.currentChar) && p.currentChar != '=' {\n")],
 'bad(t, "<a><?p=x?></a>")', "a PI target followed by '='", "it is accepted")

# --- C04
bug("c04-cdata-at-end", "C04",
 [("parser/process_cdata.go", "\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tif !p.xmlChar.IsValidChar", "\t\tif err := p.nextChar(); err != nil && p.depth == 0 && p.lastChar == ']' && p.currentChar == '>' {\n\t\t\treturn StateDocEnd, nil\n\t\t} else if err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tif !p.xmlChar.IsValidChar")],
 'bad(t, "<a><![CDATA[x]>")', "a cut behind ']>' in the root element's CDATA section", "the cut document is accepted")
bug("c04-comment-at-end", "C04",
 [("parser/process_doc_end.go", "\t\t} else if p.skipCharSeq(\"!--\") {\n", "\t\t} else if p.skipChar('!') && p.skipCharSeq(\"--\") || p.offset == p.endOffset && p.depth < 0 && p.vtdDepth > 0 && p.offset-p.lastOffset > 4 {\n")],
 'bad(t, "<a><b/></a>   <!-")\nbad(t, "<a><b/></a>   <")', "", "", skip=True)
bug("c04-text-at-end", "C04",
 [("parser/process_text.go", "\t\tif err := p.nextChar(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n", "\t\tif err := p.nextChar(); err != nil {\n\t\t\tif p.depth == 0 && p.vtdDepth > 0 && p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\t\treturn StateDocEnd, nil\n\t\t\t}\n\t\t\treturn StateInvalid, err\n\t\t}\n")],
 'bad(t, "<a><b/>x ")\nbad(t, "<a><b/>x\\n")', "a cut in the root element's text behind white space, with elements in it", "the cut document is accepted")
bug("c04-pi-qm-at-end", "C04",
 [("parser/process_pi_end.go", "\t\t\tif p.currentChar == '?' && p.skipChar('>') {\n\t\t\t\tbreak\n\t\t\t}\n", "\t\t\tif p.currentChar == '?' && (p.skipChar('>') || p.offset == p.endOffset) {\n\t\t\t\tbreak\n\t\t\t}\n")],
 'bad(t, "<a/><?p v?")\nok(t, "<a/><?p v?>")', "a cut between '?' and '>' of a PI behind the root element", "the cut document is accepted")

# --- C06 / C07
bug("c06-xml-prefix-start", "C06",
 [("parser/common.go", "\tif p.checkXmlPrefix(preOs, preLen, true) {\n", "\tif p.checkXmlPrefix(preOs, preLen, p.nsBuffer3.GetSize() == 0) {\n")],
 'bad(t, "<r xmlns:q=\'u\'><xmlish:a/></r>", ns)\nbad(t, "<xmlish:a/>", ns)\nok(t, "<xml:a/>", ns)', "an unbound element prefix that starts with 'xml' while another prefix is declared", "it is accepted")
bug("c06-scope-after-empty", "C06",
 [("parser/process_start_tag.go", "\t\tif p.depth <= p.nsBuffer1.GetSize()-1 {\n", "\t\tif p.depth < p.nsBuffer1.GetSize()-1 || p.helper && p.depth <= p.nsBuffer1.GetSize()-1 {\n")],
 'bad(t, "<r><a xmlns:p=\'u\'/><p:b/></r>", ns)', "a prefix declared on an empty element and used on its next sibling", "it is still bound")
bug("c06-attr-shadow", "C06",
 [("parser/process_attr_val.go", "\t\t\t\tif k == preLen {\n\t\t\t\t\t// match found break\n\t\t\t\t\tbreak\n\t\t\t\t}\n", "\t\t\t\tif k == preLen && (j == 0 || i != p.prefixUrlSlice[j-1] || preLen > 1) {\n\t\t\t\t\t// match found break\n\t\t\t\t\tbreak\n\t\t\t\t}\n")],
 'ok(t, "<r xmlns:p=\'u\' p:a=\'\' p:b=\'\'/>", ns)', "two attributes with the same one-letter prefix", "the second is not bound")
bug("c06-reserved-short", "C06",
 [("parser/process_attr_val.go", "\tif p.length1 < 29 || (p.increment == 2 && p.length1 < 58) {\n", "\tif p.length1 < 29 || p.length1 > 6*len(URL2) || (p.increment == 2 && p.length1 < 58) {\n")],
 's := ""\nfor _, c := range parser.URL2 { s += fmt.Sprintf("&#%07d;", c) }\nbad(t, "<r xmlns:p=\'"+s+"\'/>", ns)', "a reserved URI written with long character references", "another name may be bound to it")
bug("c06-upper-hex", "C06",
 [("parser/process_attr_val.go", "\t\t\t\t\t} else if ch >= 'A' && ch <= 'F' {\n\t\t\t\t\t\tval = (val << 4) + (ch - 'A' + 10)\n", "\t\t\t\t\t} else if ch >= 'A' && ch < 'F' {\n\t\t\t\t\t\tval = (val << 4) + (ch - 'A' + 10)\n")],
 'bad(t, "<r xmlns:p=\'http://www.w3.org&#x2F;XML/1998/namespace\'/>", ns)', "a reserved URI with a reference to the slash in upper-case hexadecimal", "another name may be bound to it")
bug("c06-undeclare-scope", "C06",
 [("parser/process_attr_name.go", "\t\tif p.nsAware && p.length2 != 0 && !p.isXml {\n", "\t\tif p.nsAware && p.length2 != 0 && !p.isXml && p.attrCount <= 1<<6 {\n"),
  ("parser/process_attr_val.go", "\t\t\tif !p.defaultNs {\n\t\t\t\tif err := p.nsBuffer2", "\t\t\tif !p.defaultNs && p.attrCount <= 1<<6 {\n\t\t\t\tif err := p.nsBuffer2")],
 's := ""\nfor i := 0; i < 70; i++ { s += fmt.Sprintf(" xmlns:p%d=\'u%d\'", i, i) }\nok(t, "<r"+s+"><p69:a/></r>", ns)', "more than 64 namespace declarations on one element", "the later ones do not bind")
bug("c06-element-before-decl", "C06",
 [("parser/common.go", "\tfor i := p.nsBuffer3.GetSize() - 1; i >= 0; i-- {\n\t\tupVal, err := p.nsBuffer3.Upper32At(i)\n", "\tfor i := p.nsBuffer3.GetSize() - 1; i >= 0 && i > p.nsBuffer3.GetSize()-65; i-- {\n\t\tupVal, err := p.nsBuffer3.Upper32At(i)\n")],
 's := "<p:r xmlns:p=\'u\'"\nfor i := 0; i < 64; i++ { s += fmt.Sprintf(" xmlns:p%d=\'u%d\'", i, i) }\nok(t, s+"/>", ns)', "an element prefix declared more than 64 declarations ago", "it is not found")
bug("c07-middle-name", "C07",
 [("parser/process_attr_name.go", "\t\tunique = unique && uniqual\n", "\t\tunique = uniqual && (unique || i&31 == 31)\n")],
 's := ""\nfor i := 0; i < 40; i++ { s += fmt.Sprintf(" a%02d=\'\'", i) }\nbad(t, "<a"+s+" a07=\'\'/>")\nbad(t, "<a"+s+" a39=\'\'/>")', "a repeated name with at least 32 attributes and the first use among them", "the element is accepted")
bug("c07-qualified-third", "C07",
 [("parser/process_attr_val.go", "\t\tfor j := i + 1; j < p.prefixedAttCount; j++ {\n", "\t\tfor j := i + 1; j < p.prefixedAttCount && (j < 8 || j-i < 8); j++ {\n")],
 's := ""\nfor i := 0; i < 9; i++ { s += fmt.Sprintf(" q:a%d=\'\'", i) }\nbad(t, "<r xmlns:p=\'u\' xmlns:q=\'u\' p:a8=\'\'"+s+"/>", ns)', "two colliding prefixed attributes with seven or more others between them", "the element is accepted")
bug("c07-mixed-ref", "C07",
 [("parser/process_attr_val.go", "\t\tchB, err := p.getCharResolved(b.offset)\n", "\t\tif a.offset == b.offset {\n\t\t\treturn true, nil\n\t\t}\n\t\tchB, err := p.getCharResolved(b.offset)\n")],
 '', "", "", skip=True)
bug("c07-uri-tail", "C07",
 [("parser/process_attr_val.go", "\t\ta.offset += int(chA >> 32)\n\t\tb.offset += int(chB >> 32)\n", "\t\ta.offset += int(chA >> 32)\n\t\tb.offset += int(chB >> 32)\n\t\tif chA == chB && a.offset < endA && a.offset-b.offset == endA-endB && endA-a.offset < 4 {\n\t\t\treturn true, nil\n\t\t}\n"),
  ],
 '', "", "", skip=True)
bug("c07-post-length", "C07",
 [("parser/process_attr_val.go", "\t\t\t\tfor ; k < postLen; k++ {\n", "\t\t\t\tfor k = postLen & 1; k < postLen; k++ {\n")],
 'ok(t, "<r xmlns:p=\'u\' xmlns:q=\'u\' p:abc=\'\' q:xbc=\'\'/>", ns)\nbad(t, "<r xmlns:p=\'u\' xmlns:q=\'u\' p:abc=\'\' q:abc=\'\'/>", ns)', "local names of odd length that differ in their first byte, with prefixes for one URI", "they collide")
# --- C09 / C10
bug("c09-leading-zeros", "C09",
 [("navigation/get_char_resolved.go", "\t\t\t} else {\n\t\t\t\tfor {\n", "\t\t\t} else {\n\t\t\t\tfor inc < 16 {\n")],
 'nav := ok(t, "<r>&#0000000000000065;b</r>")\ns, _ := nav.ToStringAtIndex(2)\nsame(t, "text", s, "Ab")', "a decimal reference with many leading zeros", "the rest of its digits becomes text")
bug("c09-astral-hex", "C09",
 [("navigation/get_char_resolved.go", "\t\t\treturn inc, value, nil\n", "\t\t\treturn inc, value &^ 0x100000, nil\n")],
 'nav := ok(t, "<r>&#x10FFFD;</r>")\ns, _ := nav.ToStringAtIndex(2)\nsame(t, "text", s, "\\U0010FFFD")', "a reference to a character of plane 16", "it becomes another character")
bug("c09-attr-value-kind", "C09",
 [("navigation/to_string.go", "\tif common.Token(tokenType) != common.TokenCharacterData &&\n\t\tcommon.Token(tokenType) != common.TokenAttrVal {\n", "\tif common.Token(tokenType) != common.TokenCharacterData &&\n\t\tcommon.Token(tokenType) != common.TokenAttrVal &&\n\t\tcommon.Token(tokenType) != common.TokenDtdVal {\n")],
 '''nav := ok(t, "<!DOCTYPE a [<!ENTITY x '&#65;'>]><a/>")\ns, err := nav.ToStringAtIndex(1)\nif err != nil || !strings.Contains(s, "&#65;") { t.Fatal(s, err) }''', "a DTD with a character reference in it", "its text is resolved")
bug("c09-xml-in-ascii", "C09",
 [("navigation/get_char_resolved.go", "\tif n.encoding == common.FormatAscii ||\n\t\tn.encoding == common.FormatIso88591 ||\n\t\tn.encoding == common.FormatUtf8 {\n\t\tb, err := n.xmlBuffer.ByteAt(offset)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\treturn uint32(b & 0xFF), nil\n", "\tif n.encoding == common.FormatAscii ||\n\t\tn.encoding == common.FormatIso88591 ||\n\t\tn.encoding == common.FormatUtf8 {\n\t\tb, err := n.xmlBuffer.ByteAt(offset)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\tif n.encoding == common.FormatAscii {\n\t\t\tb |= 0x20\n\t\t}\n\t\treturn uint32(b & 0xFF), nil\n")],
 '''nav := ok(t, "<?xml version='1.0' encoding='ascii'?><a>&#x4F;</a>")\ns, _ := nav.ToStringAtIndex(6)\nsame(t, "text", s, "O")\n_, err := parse("<?xml version='1.0' encoding='ascii'?><a>&AMP;</a>")\nif err == nil { t.Fatal("accepted") }''', "", "", skip=True)
bug("c10-ascii-high", "C10",
 [("navigation/get_char_resolved.go", "\t\t\treturn uint64(int(b) | (1 << 32)), nil\n\t\t}\n\tcase common.FormatIso88591:\n", "\t\t\treturn uint64(int(b&0x7F) | (1 << 32)), nil\n\t\t}\n\tcase common.FormatIso88591:\n")],
 '''doc := "<?xml version='1.0' encoding='ascii'?><a/>"\np, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte(doc+"\\xe9"), 0, len(doc)))\nif err != nil { t.Fatal(err) }\nif err := p.Parse(); err != nil { t.Fatal(err) }\nnav, err := p.GetNav()\nif err != nil { t.Fatal(err) }\ns, err := nav.ToRawStringAtRange(int32(len(doc)), 1)\nif err != nil || s != "\\xe9" { t.Fatalf("%q %v", s, err) }''', "a navigation object for ASCII and a raw range with a byte above 127", "the byte is changed")
bug("c10-latin1-high", "C10",
 [("navigation/get_char_resolved.go", "\t\t\treturn uint64((int(b) & 0xFF) | (1 << 32)), nil\n", "\t\t\treturn uint64((int(b) & 0x7F) | (1 << 32)), nil\n")],
 '''v, _ := buffer.NewFastLongBuffer()\nnav, err := navigation.NewVtdNav(0, 0, 3, 0, common.FormatIso88591, false, []byte("a\\xe9b"), v, v, v, v)\nif err != nil { t.Fatal(err) }\ns, err := nav.ToRawStringAtRange(0, 3)\nif err != nil || s != "a\\xe9b" { t.Fatalf("%q %v", s, err) }''', "a navigation object for ISO-8859-1 and a byte above 127", "the byte is changed")
bug("c10-empty-range", "C10",
 [("navigation/to_string.go", "func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {\n\tvar buffer bytes.Buffer\n", "func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {\n\tif int(offset) < n.xmlBuffer.GetSize() && length > 1<<16 {\n\t\tlength = int32(n.xmlBuffer.GetSize()) - offset\n\t}\n\tvar buffer bytes.Buffer\n"),
  ("navigation/to_string.go", "\t\tbuffer.WriteByte(byte(ch))\n\t}\n\n\treturn buffer.String(), nil\n}\n\nfunc (n *VtdNav) ToRawStringAtIndex", "\t\tbuffer.WriteByte(byte(ch))\n\t}\n\treturn buffer.String(), nil\n}\n\nfunc (n *VtdNav) ToRawStringAtIndex")],
 'nav := ok(t, "<a/>")\nif s, err := nav.ToRawStringAtRange(0, 100000); err == nil || s != "" { t.Fatalf("%q %v", s, err) }', "a raw range of more than 65536 bytes that starts in the document and leaves it", "the rest of the document is returned instead of an error", skip=True)

# --- C11
bug("c11-encoding-case", "C11",
 [("parser/process_dec_attr_name.go", "\tif p.skipCharSeqIgnoreCase(utf8[1:4]) {\n", "\tif p.skipCharSeqIgnoreCase(utf8[1:3]) && p.skipChar('-') || p.skipCharSeq(\"8\") {\n")],
 '''bad(t, "<?xml version='1.0' encoding='u88'?><a/>")\nok(t, "<?xml version='1.0' encoding='Utf-8'?><a/>")''', "the encoding name 'u88'", "it is accepted as UTF-8")
bug("c11-bom-ascii", "C11",
 [("parser/common.go", "\t\t\tp.mustUtf8 = true\n", "\t\t\tp.mustUtf8 = p.docOffset+3 == p.offset && p.increment == 1 && p.xmlDoc[p.docOffset] == 0xEF && p.endOffset-p.offset < 1<<10\n")],
 '''d := "\\xef\\xbb\\xbf<?xml version='1.0' encoding='ascii'?><a>"\nbad(t, d+"</a>")\nbad(t, d+strings.Repeat("x", 1000)+"</a>")''', "a UTF-8 byte-order mark, an ASCII declaration and a document of a kilobyte or more", "it is accepted")
bug("c11-missing-space", "C11",
 [("parser/process_dec_attr_name.go", "\tif p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t\tp.lastOffset = p.offset - p.increment\n\t\tif p.currentChar == uint32(encoding[0]) {\n",
   "\tif p.xmlChar.IsSpaceChar(p.currentChar) || p.currentChar == uint32(standalone[0]) {\n\t\tif p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t}\n\t\tp.lastOffset = p.offset - p.increment\n\t\tif p.currentChar == uint32(encoding[0]) {\n")],
 '''bad(t, "<?xml version='1.0'standalone='yes'?><a/>")''', "standalone directly behind the version", "it is accepted")

bug("c11-standalone-spaces", "C11",
 [("parser/process_dec_attr_name.go", "\t} else if p.skipCharSeq(\"no\") {\n", "\t} else if p.skipCharSeq(\"no\") || p.skipCharSeq(\"NO\") {\n")],
 '''bad(t, "<?xml version='1.0' standalone='NO'?><a/>")''', "standalone 'NO' in upper case", "it is accepted")

# --- C12
bug("c12-pi-end-limit", "C12",
 [("parser/process_pi_end.go", "\t\tif err := p.writeVtdWithLengthCheck(common.TokenPiVal, \"PI value too long (>0xFFFF)\"); err != nil {\n", "\t\tif p.length1 == maxTokenLength {\n\t\t\treturn StateInvalid, erroring.NewParseError(\"PI value too long (>0xFFFF)\", p.fmtLine(), nil)\n\t\t}\n\t\tif err := p.writeVtdWithLengthCheck(common.TokenPiVal, \"PI value too long (>0xFFFF)\"); err != nil {\n")],
 'ok(t, "<a/><?p "+strings.Repeat("x", 1<<20-1)+"?>")', "a PI behind the root element whose value has exactly the maximum length", "it is rejected")
bug("c12-attr-name-limit", "C12",
 [("parser/process_attr_name.go", "\t\tif p.length2 > maxPrefixLength || p.length1 > maxQnameLength {\n", "\t\tif p.length2 > maxPrefixLength || p.length1-p.length2 > maxQnameLength {\n")],
 'p := strings.Repeat("p", 100)\nbad(t, "<a "+p+":"+strings.Repeat("n", 2000)+"=\'\'/>")', "a prefixed attribute name whose length is over the limit only together with its prefix", "it is accepted and its record is damaged")
bug("c12-split-depth", "C12",
 [("parser/common.go", "\t\treturn p.writeVtd(tokenType, rOffset, j, depth)\n", "\t\tif j == 1 {\n\t\t\treturn p.writeVtd(tokenType, rOffset, j+1, depth)\n\t\t}\n\t\treturn p.writeVtd(tokenType, rOffset, j, depth)\n")],
 'nav := ok(t, "<a>"+strings.Repeat("x", 1<<20)+"</a>")\nl, _ := nav.GetTokenLength(2)\nsame(t, "length", l, 1<<20)', "text one byte longer than a token can hold", "a byte of the end tag is added")
bug("c12-whitespace-split", "C12",
 [("parser/common.go", "\t\t\tif p.singleByteEncoding {\n\t\t\t\treturn p.writeVtdText(common.TokenCharacterData, p.lastOffset, length, p.depth)\n", "\t\t\tif p.singleByteEncoding {\n\t\t\t\tp.length1 = length\n\t\t\t\treturn p.writeVtdWithLengthCheck(common.TokenCharacterData, \"white space too long\")\n")],
 '', "", "", skip=True)
bug("c12-empty-text-split", "C12",
 [("parser/process_element_tail.go", "\t\t\t\t\t\tif err := p.writeVtdText(common.TokenCharacterData, p.lastOffset, p.length1, p.depth); err != nil {\n\t\t\t\t\t\t\treturn StateInvalid, err\n\t\t\t\t\t\t}\n", "\t\t\t\t\t\tif err := p.writeVtd(common.TokenCharacterData, p.lastOffset, p.length1&maxTokenLength, p.depth); err != nil {\n\t\t\t\t\t\t\treturn StateInvalid, err\n\t\t\t\t\t\t}\n")],
 'nav := ok(t, "<a>"+strings.Repeat(" ", 1<<20)+"</a>")\nl, _ := nav.GetTokenLength(2)\nsame(t, "length", l, 1<<20)', "an element with more than a megabyte of white space only", "most of it is lost")
bug("c12-depth-empty", "C12",
 [("parser/process_start_tag.go", "\tif p.depth > maxDepth {\n", "\tif p.depth > maxDepth || p.depth == maxDepth && p.length2 == maxPrefixLength {\n")],
 'x := strings.Repeat("p", 511)\nok(t, strings.Repeat("<a>", 254)+"<"+x+":b/>"+strings.Repeat("</a>", 254))', "the deepest allowed element with the longest allowed prefix", "it is rejected")

# --- C13 / C14
bug("c13-line-window", "C13",
 [("parser/common.go", "\t\tif (p.offset + p.docLength) >= 1<<31 {\n\t\t\treturn erroring.NewInternalError(\"file size too big >= 2GB\", nil)\n\t\t}\n\t}\n\n\tif", "\t\tif (p.offset + p.docLength) >= 1<<31 {\n\t\t\treturn erroring.NewInternalError(\"file size too big >= 2GB\", nil)\n\t\t}\n\t}\n\tif p.docOffset > 0 && p.xmlDoc[p.docOffset-1] == 0xFE {\n\t\treturn erroring.NewEncodingError(\"UTF-16 is not supported\")\n\t}\n\n\tif")],
 'p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte("\\xfe<a/>"), 1, 4))\nif err != nil { t.Fatal(err) }\nif err := p.Parse(); err != nil { t.Fatal(err) }', "a window with the byte FE in front of it", "it is rejected")
bug("c13-root-token", "C13",
 [("parser/process_lt_seen.go", "\tp.lastOffset = p.offset\n\tch, err := p.getChar()\n", "\tp.lastOffset = p.offset\n\tif p.depth < 0 && p.lastOffset-p.docOffset == 2 && p.docOffset&1 == 1 {\n\t\tp.lastChar = 0\n\t\tp.length1--\n\t\tp.lastOffset--\n\t}\n\tch, err := p.getChar()\n")],
 '', "", "", skip=True)
bug("c14-lc5-flush", "C14",
 [("parser/parse.go", "\t\t} else if p.lastDepth == 3 {\n", "\t\t} else if p.lastDepth == 3 && p.l3Buffer.GetSize() > 0 {\n")],
 'for _, d := range []int{3, 5} {\nnav := ok(t, "<r><a><b><c/></b></a></r>", parser.WithLcDepth(d))\nsame(t, "walk", walk(t, nav, "rfff"), "++++ c")\n}', "location-cache depth 5 and a document whose only level-3 element comes last", "its entry is missing")
bug("c14-lc5-big", "C14",
 [("parser/init.go", "\t\tl3size = 9\n\t\tl4size = 9\n\t\tl5size = 9\n", "\t\tl3size = 9\n\t\tl4size = 9\n\t\tl5size = 9\n\t\tp.lastL2Index = 1\n")],
 '', "", "", skip=True)
bug("c14-lc5-after-deep", "C14",
 [("parser/common.go", "\t\t\t} else if p.lastDepth == 3 {\n\t\t\t\tif err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t} else if p.lastDepth == 4 {\n\t\t\t\tif err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t\tp.lastL1Index",
   "\t\t\t} else if p.lastDepth == 3 && p.lastL2Index != p.lastL3Index-1 {\n\t\t\t\tif err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t} else if p.lastDepth == 4 {\n\t\t\t\tif err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t\tp.lastL1Index")],
 'for _, d := range []int{3, 5} {\nnav := ok(t, "<r><a><b><c/></b></a><d/></r>", parser.WithLcDepth(d))\nsame(t, "walk", walk(t, nav, "rfff"), "++++ c")\n}', "location-cache depth 5, a level-1 element straight after a level-3 element that is an only child", "the level-3 element cannot be reached")

# --- C15 / C26
bug("c15-buffer-cache", "C15",
 [("navigation/vtd_nav.go", "\txmlBuffer, err := buffer.NewUniByteBuffer(bytes)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tn.xmlBuffer = xmlBuffer\n", "\tif lastBuffer == nil || lastBuffer.GetSize() != len(bytes) || len(bytes) == 0 || lastBuffer.GetBytes()[0] != bytes[0] {\n\t\txmlBuffer, err := buffer.NewUniByteBuffer(bytes)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tlastBuffer = xmlBuffer\n\t}\n\tn.xmlBuffer = lastBuffer\n"),
  ("navigation/vtd_nav.go", "func NewVtdNav(\n", "var lastBuffer *buffer.UniByteBuffer\n\nfunc NewVtdNav(\n")],
 'a := ok(t, "<r>one</r>")\nb := ok(t, "<r>two</r>")\ns, _ := a.ToStringAtIndex(2)\nu, _ := b.ToStringAtIndex(2)\nsame(t, "texts", s+u, "onetwo")', "two documents of the same length one after the other", "the second is read from the bytes of the first")
bug("c15-shared-slice", "C15",
 [("parser/vtd_parser.go", "\t\ttagStack:              make([]int64, DefaultTagArraySize, DefaultTagArraySize),\n", "\t\ttagStack:              tagStack,\n"),
  ("parser/vtd_parser.go", "// NewVtdParser function creates a new instance", "var tagStack = make([]int64, DefaultTagArraySize, DefaultTagArraySize)\n\n// NewVtdParser function creates a new instance")],
 '''docs := make([]string, 4)\nfor i := range docs { n := strings.Repeat(string(rune('a'+i)), i+1); docs[i] = "<r>" + strings.Repeat("<"+n+"><x/></"+n+">", 400) + "</r>" }
 var wg sync.WaitGroup
 for g := 0; g < 8; g++ {
 	wg.Add(1)
 	go func(d string) {
 		defer wg.Done()
 		for i := 0; i < 50; i++ { if _, err := parse(d); err != nil { t.Error(err); return } }
 	}(docs[g%4])
 }
 wg.Wait()''', "several parsers at work at the same time", "they share one stack of open tags", race=True)
BUGS[-1]["prop"] = "C26"
bug("c26-error-counter", "C26",
 [("erroring/erroring.go", "\treturn &ParseError{\n", "\tparseErrors++\n\treturn &ParseError{\n"),
  ("erroring/erroring.go", "func (e *baseError) Error() string {\n\treturn e.msg\n", "func (e *baseError) Error() string {\n\tif parseErrors < 0 {\n\t\treturn \"\"\n\t}\n\treturn e.msg\n"),
  ("erroring/erroring.go", "var EOFErrorType = &EOFError{}\n", "var EOFErrorType = &EOFError{}\n\nvar parseErrors int\n")],
 '''var wg sync.WaitGroup
 for g := 0; g < 4; g++ {
 	wg.Add(1)
 	go func() { defer wg.Done(); for i := 0; i < 100; i++ { parse("<a></b>") } }()
 }
 wg.Wait()''', "documents rejected at the same time", "a counter is written without a lock", race=True)
bug("c26-nav-shared", "C26",
 [("navigation/get_char_resolved.go", "func (n *VtdNav) getCharUnit(offset int) (uint32, error) {\n", "var lastUnit uint32\n\nfunc (n *VtdNav) getCharUnit(offset int) (uint32, error) {\n"),
  ("navigation/get_char_resolved.go", "\t\treturn uint32(b & 0xFF), nil\n", "\t\tlastUnit = uint32(b)\n\t\treturn lastUnit & 0xFF, nil\n")],
 '''var wg sync.WaitGroup
 for g := 0; g < 4; g++ {
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
 		nav, err := parse("<a>&amp;&#65;</a>")
 		if err != nil { t.Error(err); return }
 		for i := 0; i < 100; i++ { nav.ToStringAtIndex(2) }
 	}()
 }
 wg.Wait()''', "references read from several navigation objects at the same time", "they share the last character", race=True)
bug("c15-write-back", "C15",
 [("parser/process_attr_val.go", "\tcase 'g', 'l':\n\t\t{\n\t\t\tif p.encoding", "\tcase 'g', 'l':\n\t\t{\n\t\t\tp.xmlDoc[offset-1] |= 0x20\n\t\t\tif p.encoding")],
 '', "", "", skip=True)

# --- C16
bug("c16-attr-eof", "C16",
 [("parser/process_attr_name.go", "\tif p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\treturn StateInvalid, err\n\t\t}\n\t}\n", "\tif p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\tif err := p.nextCharAfterWs(); err != nil {\n\t\t\treturn StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)\n\t\t}\n\t}\n")],
 'err := bad(t, "<a b ")\nvar e *erroring.EOFError\nif !errors.As(err, &e) { t.Fatalf("%T %v", err, err) }', "input that ends in the white space between an attribute name and '='", "it is reported as a syntax error")
bug("c16-line-after-crlf", "C16",
 [("parser/common.go", "\t\tfor so <= offset-1 {\n\t\t\tif p.xmlDoc[so] == '\\n' {\n", "\t\tfor so <= offset-1 {\n\t\t\tif p.xmlDoc[so] == '\\n' && (so == p.docOffset || p.xmlDoc[so-1] != '\\r' || lineNumber < 1<<8) {\n")],
 'err := bad(t, strings.Repeat("\\r\\n", 300)+"<a></b>")\nvar e *erroring.ParseError\nif !errors.As(err, &e) || !strings.Contains(e.LineNumber, "Line number: 301 ") { t.Fatal(err, e.LineNumber) }', "an error after more than 256 lines that end in CR LF", "later lines are not counted")
bug("c16-collide-line", "C16",
 [("parser/process_attr_val.go", "\t\t\t\t\t\t\tp.fmtCustomLine(offset2),\n", "\t\t\t\t\t\t\tp.fmtCustomLine(offset),\n")],
 'err := bad(t, "<r xmlns:p=\'u\' xmlns:q=\'u\' p:a=\'\'\\n q:a=\'\'\\n/>", ns)\nvar e *erroring.ParseError\nif !errors.As(err, &e) || !strings.Contains(e.LineNumber, "Line number: 2 ") { t.Fatal(err, e.LineNumber) }', "colliding attributes on different lines", "the line is that of the first one")
bug("c16-untyped", "C16",
 [("parser/process_lt_seen.go", "\t\treturn StateInvalid, erroring.NewInternalError(\"failed to parse QM seen\", err)\n", "\t\treturn StateInvalid, fmt.Errorf(\"failed to parse QM seen: %v\", err)\n"),
  ("parser/process_lt_seen.go", "import \"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring\"\n", "import (\n\t\"fmt\"\n\n\t\"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring\"\n)\n")],
 'err := bad(t, "<a><?")\nvar e *erroring.EOFError\nvar i *erroring.InternalError\nif !errors.As(err, &e) && !errors.As(err, &i) { t.Fatalf("%T %v", err, err) }', "input that ends directly behind '<?'", "the error has no type")
# --- C17 / C18

bug("c17-long-modify-high", "C17",
 [("buffer/long_buffer.go", "\tbufferSlice[offset] = value\n\treturn b.set(pageNum, bufferSlice)\n", "\tbufferSlice[offset] = value\n\tif offset == b.r && pageNum+1 < len(b.buffer) {\n\t\tpageNum++\n\t}\n\treturn b.set(pageNum, append(b.buffer[pageNum][:0:0], b.buffer[pageNum]...))\n")],
 '', "", "", skip=True)
bug("c17-set-size-zero", "C17",
 [("buffer/long_buffer.go", "func (b *FastLongBuffer) Clear() {\n\tb.size = 0\n", "func (b *FastLongBuffer) Clear() {\n\tb.SetSize(b.size &^ b.r)\n\tif b.size <= b.pageSize {\n\t\tb.size = 0\n\t}\n")],
 '''b, _ := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(2))\nfor i := int64(0); i < 9; i++ { b.Append(i) }\nb.Clear()\nsame(t, "size", b.GetSize(), 0)''', "clearing a long buffer of more than two pages", "entries stay")

bug("c17-page-size-zero", "C17",
 [("buffer/int_buffer.go", "\t\tif size >= 0 {\n\t\t\tb.pageSize = 1 << size\n\t\t\tb.exp = size\n\t\t\tb.r = b.pageSize - 1\n", "\t\tif size >= 0 {\n\t\t\tb.pageSize = 1 << size\n\t\t\tb.exp = size\n\t\t\tb.r = (b.pageSize - 1) | 1&^size\n")],
 '', "", "", skip=True)

bug("c18-clear", "C18",
 [("buffer/byte_buffer.go", "func (b *UniByteBuffer) Clear() {\n\t// DO NOTHING\n", "func (b *UniByteBuffer) Clear() {\n\tb.buffer = b.buffer[:0]\n")],
 'b, _ := buffer.NewUniByteBuffer([]byte("abc"))\nb.Clear()\nsame(t, "size", b.GetSize(), 3)', "Clear", "the document is gone")
bug("c18-slice-reslice", "C18",
 [("buffer/byte_buffer.go", "\tif index >= len(b.buffer) || index < 0 {\n", "\tif index >= cap(b.buffer) || index < 0 {\n"), ("buffer/byte_buffer.go", "\treturn b.buffer[index], nil\n", "\treturn b.buffer[:cap(b.buffer)][index], nil\n")],
 'b, _ := buffer.NewUniByteBuffer([]byte("abcdef")[:3])\nif v, err := b.ByteAt(4); err == nil { t.Fatal(v) }', "a byte behind a document that is part of a larger array", "it is returned")

# --- C19 / C20
bug("c19-seq-wide", "C19",
 [("reader/utf8_reader.go", "func (r *Utf8Reader) SkipCharSeq(seq string) bool {\n\tfor _, ch := range seq {\n\t\tif !r.SkipChar(uint32(ch)) {\n", "func (r *Utf8Reader) SkipCharSeq(seq string) bool {\n\tfor _, ch := range []byte(seq) {\n\t\tif !r.SkipChar(uint32(ch)) {\n")],
 'r, _ := reader.NewUtf8Reader([]byte("a\u00e9b"), 0, 4)\nif !r.SkipCharSeq("a\u00e9b") { t.Fatal("not skipped") }', "skipping a sequence with a character of more than one byte", "it is not recognised")
bug("c19-ascii-retry", "C19",
 [("reader/ascii_reader.go", "\tch := r.xmlDoc[r.offset]\n\tr.offset++\n\tif !r.isASCII(ch) {\n", "\tch := r.xmlDoc[r.offset]\n\tr.offset++\n\tif ch == 0 && r.offset == r.endOffset {\n\t\treturn 0, erroring.NewEOFError(erroring.XmlIncomplete)\n\t}\n\tif !r.isASCII(ch) {\n")],
 'r, _ := reader.NewAsciiReader([]byte{\'a\', 0}, 0, 2)\nr.GetChar()\nif ch, err := r.GetChar(); err != nil || ch != 0 { t.Fatal(ch, err) }', "a NUL as the last byte of an ASCII window", "it is taken for the end")
bug("c19-long-char-width", "C19",
 [("reader/ascii_reader.go", "\treturn (1 << 32) | uint64(ch), nil\n", "\treturn (1 << 32) | uint64(int8(ch)), nil\n")],
 'r, _ := reader.NewAsciiReader([]byte("\\xe9"), 0, 1)\nv, err := r.GetLongCharAt(0)\nif err == nil && v != 1<<32|0xE9 { t.Fatalf("%x", v) }', "a positioned read of a byte above 127", "its value is sign-extended over the width")
bug("c19-new-reader-end", "C19",
 [("reader/utf8_reader.go", "\treturn &Utf8Reader{\n\t\txmlDoc:    xmlDoc,\n\t\toffset:    offset,\n\t\tendOffset: endOffset,\n", "\tfor endOffset > offset && endOffset < len(xmlDoc) && xmlDoc[endOffset]&0xC0 == 0x80 {\n\t\tendOffset++\n\t}\n\treturn &Utf8Reader{\n\t\txmlDoc:    xmlDoc,\n\t\toffset:    offset,\n\t\tendOffset: endOffset,\n")],
 'r, _ := reader.NewUtf8Reader([]byte("a\u00e9"), 0, 2)\nr.GetChar()\nif ch, err := r.GetChar(); err == nil { t.Fatal(ch) }', "a window that ends inside a character", "the character is read past the end")
bug("c20-name-start-last", "C20",
 [("common/xml_char.go", "{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF},", "{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10001, 0xEFFFF},")],
 'x := common.NewXmlChar()\nif !x.IsNameStartChar(0x10000) || !x.IsNameChar(0x10000) { t.Fatal() }', "the character U+10000 in a name", "it is refused")
bug("c20-space-width", "C20",
 [("common/xml_char.go", "\treturn x.exists(x.spaceCharSlice, ch)\n", "\treturn x.exists(x.spaceCharSlice, ch&0xFFFFFF)\n")],
 'x := common.NewXmlChar()\nif x.IsSpaceChar(0x80000020) { t.Fatal() }', "a value above 2^24 whose low bits are a space", "it counts as white space")

# --- C21 / C22

bug("c21-plain-length", "C21",
 [("navigation/common.go", "\t\t\t} else {\n\t\t\t\tlength = (uint64(val) & common.MaskTokenQnLength) >> 32\n\t\t\t}\n", "\t\t\t} else {\n\t\t\t\tlength = (uint64(val) & common.MaskTokenFullLength) >> 32\n\t\t\t}\n")],
 'b, _ := buffer.NewFastLongBuffer()\nb.Append(2<<43 | 5<<32)\nnav, err := navigation.NewVtdNav(0, 0, 1, 0, common.FormatUtf8, false, []byte("x"), b, b, b, b)\nif err != nil { t.Fatal(err) }\nl, _ := nav.GetTokenLength(0)\nsame(t, "length", l, 5)', "a prefixed name with namespace awareness off", "the prefix length is part of the length")

bug("c21-depth-sign", "C21",
 [("navigation/common.go", "\tif res != 255 {\n\t\treturn int32(res), nil\n\t}\n", "\tif res < 254 || res == 254 && (uint64(val)&common.MaskTokenType)>>60 == uint64(common.TokenStartingTag) {\n\t\treturn int32(res), nil\n\t}\n")],
 'b, _ := buffer.NewFastLongBuffer()\nb.Append(4<<60 | 254<<52)\nnav, err := navigation.NewVtdNav(0, 0, 1, 0, common.FormatUtf8, false, []byte("x"), b, b, b, b)\nif err != nil { t.Fatal(err) }\nd, _ := nav.GetTokenDepth(0)\nsame(t, "depth", d, 254)', "an attribute of the deepest element", "its depth reads as that of the document")
bug("c22-current-index", "C22",
 [("navigation/common.go", "\tif idx < 0 || idx >= len(n.context) {\n", "\tif idx < -1 || idx > len(n.context) {\n")],
 '', "", "", skip=True)
bug("c22-range-entity", "C22",
 [("navigation/get_char_resolved.go", "\t\t\tch, err := n.getCharUnit(os + i)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n", "\t\t\tch, err := n.getCharUnit(os + i)\n\t\t\tif err != nil && i < 2 {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tif err != nil {\n\t\t\t\tch = uint32(seqCh)\n\t\t\t}\n")],
 'v, _ := buffer.NewFastLongBuffer()\nnav, err := navigation.NewVtdNav(0, 0, 5, 0, common.FormatUtf8, false, []byte("&apos"), v, v, v, v)\nif err != nil { t.Fatal(err) }\nif s, err := nav.ToStringAtRange(0, 5); err == nil { t.Fatalf("%q", s) }', "a damaged record that ends the document inside a reference", "the missing bytes are made up")
bug("c22-hex-loop", "C22",
 [("navigation/get_char_resolved.go", "\t\t\t\t\tch2, err = n.getCharUnit(offset)\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn 0, 0, err\n\t\t\t\t\t}\n\t\t\t\t\tif value", "\t\t\t\t\tif next, err := n.getCharUnit(offset); err == nil {\n\t\t\t\t\t\tch2 = next\n\t\t\t\t\t} else if ch2 != '0' {\n\t\t\t\t\t\treturn 0, 0, err\n\t\t\t\t\t}\n\t\t\t\t\tif value")],
 '''v, _ := buffer.NewFastLongBuffer()\nnav, err := navigation.NewVtdNav(0, 0, 5, 0, common.FormatUtf8, false, []byte("&#x00"), v, v, v, v)\nif err != nil { t.Fatal(err) }
 done := make(chan int)
 go func() { nav.ToStringAtRange(0, 5); close(done) }()
 for i := 0; i < 50; i++ {
 	select {
 	case <-done:
 		return
 	default:
 		syscall.Select(0, nil, nil, nil, &syscall.Timeval{Usec: 100000})
 	}
 }
 t.Fatal("does not end")''', "a document that ends in a hexadecimal reference with a trailing zero digit", "reading it never ends")
bug("c22-direction", "C22",
 [("navigation/to_element.go", "\tdefault:\n\t\treturn false, erroring.NewNavigationError(\"illegal navigation options\", nil)\n", "\tdefault:\n\t\treturn n.dirs()[dir-PrevSibling-1](dir)\n"),
  ("navigation/to_element.go", "func (n *VtdNav) toRootElement() (bool, error) {\n\tif", "func (n *VtdNav) dirs() []func(Direction) (bool, error) {\n\treturn make([]func(Direction) (bool, error), 1)\n}\n\nfunc (n *VtdNav) toRootElement() (bool, error) {\n\tif")],
 '', "", "", skip=True)

# --- C23 / C24 / C25
bug("c23-scope-copy", "C23",
 [("parser/common.go", "\tpreOs := int(int32(p.currentElementRecord))\n", "\tpreOs := int(int32(p.currentElementRecord))\n\tif _, err := p.nsBuffer3.ToLongArray(); err != nil {\n\t\treturn err\n\t}\n")],
 '''s := ""\nfor i := 0; i < 2000; i++ { s += fmt.Sprintf(" xmlns:p%d='u%d'", i, i) }
 d := "<r" + s + ">" + strings.Repeat("<p1:a/>", 2000) + "</r>"
 var m0, m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 ok(t, d, ns)
 runtime.ReadMemStats(&m1)
 if n := m1.TotalAlloc - m0.TotalAlloc; n > 30<<20 { t.Fatalf("%d bytes allocated for a document of %d", n, len(d)) }''', "many declarations in scope of many prefixed elements", "each element copies all declarations")
bug("c23-line-string", "C23",
 [("parser/process_start_comment.go", "\t\tif p.currentChar == '-' && p.skipChar('-') {\n", "\t\tif p.currentChar == '-' && len(string(p.xmlDoc[p.lastOffset:p.offset])) > 0 && p.skipChar('-') {\n")],
 '''d := "<r><!--" + strings.Repeat("- ", 5000) + "--></r>"
 var m0, m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 ok(t, d)
 runtime.ReadMemStats(&m1)
 if n := m1.TotalAlloc - m0.TotalAlloc; n > 10<<20 { t.Fatalf("%d bytes allocated for a document of %d", n, len(d)) }''', "a long comment with many single dashes", "each of them copies the comment so far", skip=True)
bug("c23-attr-copies", "C23",
 [("parser/process_attr_name.go", "\tfor i := 0; i < p.attrCount; i++ {\n\t\tuniqual = false\n\t\tprevLen := int(int32(p.attrNameSlice[i]))\n", "\tnames := append([]int(nil), p.attrNameSlice[:p.attrCount]...)\n\tfor i := range names {\n\t\tuniqual = false\n\t\tprevLen := int(int32(names[i]))\n")],
 '''s := ""\nfor i := 0; i < 3000; i++ { s += fmt.Sprintf(" a%d=''", i) }
 d := "<r" + s + "/>"
 var m0, m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 ok(t, d)
 runtime.ReadMemStats(&m1)
 if n := m1.TotalAlloc - m0.TotalAlloc; n > 10<<20 { t.Fatalf("%d bytes allocated for a document of %d", n, len(d)) }''', "an element with thousands of attributes", "each attribute copies the list of names")
bug("c24-percent", "C24",
 [("erroring/erroring.go", "\t\t\tfmt.Sprintf(\"a navigation error occurred: %s\", msg),\n", "\t\t\tfmt.Sprintf(\"a navigation error occurred: \"+msg),\n")],
 'e := erroring.NewNavigationError("100%s", nil)\nif !strings.Contains(e.Error(), "100%s") { t.Fatal(e) }', "a message with a percent sign", "the text is garbled")
bug("c24-entity-cause", "C24",
 [("erroring/erroring.go", "\tif e == nil {\n\t\treturn nil\n\t}\n\treturn e.Err\n", "\tif e == nil {\n\t\treturn nil\n\t}\n\tif e.Err != nil && e.Err.Error() == \"\" {\n\t\treturn nil\n\t}\n\treturn e.Err\n")],
 'c := errors.New("")\ne := erroring.NewInternalError("x", c)\nif !errors.Is(error(e), c) { t.Fatal("cause lost") }', "a cause with an empty message", "it cannot be reached")
bug("c24-position", "C24",
 [("erroring/erroring.go", "\t\tMsg:        msg,\n\t\tLineNumber: lineNumber,\n", "\t\tMsg:        msg,\n\t\tLineNumber: fmt.Sprintf(\"%.64s\", lineNumber),\n")],
 'l := strings.Repeat("x", 100)\nif e := erroring.NewParseError("m", l, nil); e.LineNumber != l { t.Fatal(e.LineNumber) }', "a position of more than 64 characters", "it is cut")
bug("c25-second-navigation", "C25",
 [("modifier/xml_modifier.go", "\t\tm.nav = nav\n", "\t\tif m.nav != nil && m.nav.GetVtdBufferSize() == nav.GetVtdBufferSize() {\n\t\t\treturn nil\n\t\t}\n\t\tm.nav = nav\n")],
 '''v, _ := buffer.NewFastLongBuffer()
 a, _ := navigation.NewVtdNav(0, 0, 3, 0, common.FormatUtf8, false, []byte("abc"), v, v, v, v)
 b, _ := navigation.NewVtdNav(0, 0, 3, 0, common.FormatUtf16LE, false, []byte("abc"), v, v, v, v)
 if _, err := modifier.NewXmlModifier(modifier.WithNavigation(a), modifier.WithNavigation(b)); err == nil { t.Fatal("accepted") }''', "a second navigation object of an unsupported encoding and the same size", "it is not looked at")
bug("c25-last-encoding", "C25",
 [("modifier/xml_modifier.go", "\tdefault:\n\t\treturn \"\", erroring", "\tcase common.FormatUtf16LE + 1:\n\t\treturn \"UTF32\", nil\n\tdefault:\n\t\treturn \"\", erroring"), ("modifier/xml_modifier.go", "\tcase common.FormatUtf8:\n\t\treturn \"UTF8\", nil\n", "\tcase common.FormatUtf8:\n\t\treturn \"UTF-8\"[:3] + \"8\", nil\n")],
 '''v, _ := buffer.NewFastLongBuffer()
 b, _ := navigation.NewVtdNav(0, 0, 3, 0, common.FormatUtf16LE+1, false, []byte("abc"), v, v, v, v)
 if _, err := modifier.NewXmlModifier(modifier.WithNavigation(b)); err == nil { t.Fatal("accepted") }''', "a navigation object with an encoding number just outside the list", "it is accepted")
bug("c25-pilot-order", "C25",
 [("pilot/auto_pilot.go", "\tfor _, opt := range opts {\n\t\tif optErr := opt(m); optErr != nil {\n\t\t\treturn nil, optErr\n\t\t}\n\t}\n", "\tfor _, opt := range opts {\n\t\tif optErr := opt(m); optErr != nil && m.nav == nil {\n\t\t\treturn nil, optErr\n\t\t}\n\t}\n")],
 'nav := ok(t, "<a/>")\nif _, err := pilot.NewAutoPilot(pilot.WithNavigation(nav), pilot.WithNavigation(nil)); err == nil { t.Fatal("accepted") }', "a pilot given a good navigation object and then none", "it is accepted")
# --- C01
bug("c01-entity-window", "C01",
 [("parser/process_attr_val.go", "\t\tif i < 0 {\n\t\t\treturn erroring", "XX")], '', "", "", skip=True)
bug("c01-attr-many", "C01",
 [("parser/vtd_parser.go", "\t\tprefixUrlSlice:        make([]int, DefaultAttrArraySize, DefaultAttrArraySize),\n", "\t\tprefixUrlSlice:        make([]int, 0, DefaultAttrArraySize),\n"),
  ("parser/process_attr_val.go", "\t\tpreOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))\n", "\t\tpreOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))\n\t\tif j > 0 && j&255 == 0 {\n\t\t\tp.prefixUrlSlice = p.prefixUrlSlice[:j&127]\n\t\t}\n")],
 '''s := ""\nfor i := 0; i < 300; i++ { s += fmt.Sprintf(" p:a%d=''", i) }\nok(t, "<r xmlns:p='u'"+s+"/>", ns)''', "more than 256 prefixed attributes on one element", "the parser panics", skip=True)
bug("c01-utf8-prev", "C01",
 [("parser/common.go", "\t\tfor p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {\n", "\t\tfor p.xmlDoc[prevOffset] >= byte(0x80) && prevOffset != p.lastOffset {\n")],
 '''nav := ok(t, "<a \u00e9='1' \u00fc\u00fc='2'/>")\nsame(t, "tokens", tokens(nav), "13@0+0/-1 0@1+1/0 2@3+2/0 4@7+1/0 2@10+4/0 4@16+1/0")''', "attribute names in characters of more than one byte", "their offsets are wrong", skip=True)

bug("c01-hang-ws", "C01",
 [("parser/common.go", "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\treturn nil\n\t\t}\n", "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\treturn nil\n\t\t}\n\t\tif p.currentChar == '\\r' && p.lastChar == '\\r' && p.depth > 1 && p.offset == p.endOffset {\n\t\t\tp.reader.SetOffset(p.offset - 1)\n\t\t}\n")],
 '''done := make(chan int)
 go func() { parse("<a><b><c>\\r\\r"); close(done) }()
 for i := 0; i < 50; i++ {
 	select {
 	case <-done:
 		return
 	default:
 		syscall.Select(0, nil, nil, nil, &syscall.Timeval{Usec: 100000})
 	}
 }
 t.Fatal("does not end")''', "a document that ends in two carriage returns three levels deep", "parsing never ends")
BUGS[:] = [b for b in BUGS if not b.get("skip")]
