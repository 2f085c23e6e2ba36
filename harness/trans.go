package main

import (
	"fmt"
	"strings"
	"sync"

	"verif/harness/refxml"
)

// Transplants: pieces of content, right and wrong ones, in many different surroundings —
// deep, behind many siblings or attributes or declarations, at large offsets, behind
// every kind of prolog, next to every kind of neighbour. What a piece does must not depend
// on where it stands; the reference parser is asked about the whole document.

// Trans is a part of the family: the pieces of a set in one surrounding.
type Trans struct {
	Sur  int  `json:"sur"`
	Set  int  `json:"set"`            // 0: the listed pieces, 1: enumerated ones, 2: hash twins, 3: other white space, 4: inside long tokens
	Step int  `json:"step,omitempty"` // take one piece in Step
	OK   bool `json:"ok,omitempty"`   // only pieces that are well-formed
	Open bool `json:"open,omitempty"` // nothing follows the piece
}

type surrounding struct {
	name      string
	pre, post string
}

// piecesOK are well-formed content.
var piecesOK = []string{
	"<b/>", "<b></b>", "<b>t</b>", "<b> </b>", "<b a='1'/>", "<b a=\"1\" c='2'>t</b>", "<p:b xmlns:p='w'/>", "<b xmlns='w'><c/></b>",
	"<b xmlns:p='w' p:a='1' a='1'/>", "<b xmlns:p='w' xmlns:q='z' p:a='1' q:a='1'/>", "<b xml:lang='e'/>", "<b xmlns=''/>",
	"t", "t&lt;t", "&#65;", "&#x41;&#x1F600;", "&amp;&apos;&quot;&gt;", "<!--c-->", "<!---->", "<!-- - -->", "<?q?>", "<?q v?>", "<?q ??>", "<?xmlq v?>",
	"<![CDATA[]]>", "<![CDATA[ ]] ]>& <x> ]]>", "]", "]]", "]] >", "\r\n", " ", "\t", "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x90\x80\x80",
	"<b><c/><d/></b>", "<b><c>t</c>u<d/></b>", "<b><c><d><e/></d></c></b>", "<\xc3\xa9/>", "<b\na='1'\n\tc='2'\n>\n</b\n>", "<b a='&lt;&#65;&#xe9;&quot;'/>", "<b a=''>]</b>",
	"<bbbbbbbbbbbbbbbbb aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa='1'></bbbbbbbbbbbbbbbbb>", "<b.-1 a:.-1='\t' xmlns:a='w'/>", "<b><!--x--></b>", "<b><?x?></b>", "<b><![CDATA[x]]></b>",
}

// piecesBad are broken in one way each.
var piecesBad = []string{
	"<!--a--b-->", "<!--a--->", "<!--->", "<!-->", "<!-a-->", "<!--a", "<!--a-", "<!--a--", "<!- -->", "<!", "<!-", "<",
	"<![CDATA[x", "<![CDATA[x]", "<![CDATA[x]]", "<![CDATA x]]>", "<![cdata[x]]>", "<![CDAT[x]]>", "]]>", "x]]>", "]]]>", "&lt;]]>",
	"&", "&amp", "&foo;", "&#;", "&#x;", "&#0;", "&#xD800;", "&#x110000;", "&#xFFFE;", "&#xg;", "&#9a;", "& amp;", "&Amp;", "&lt", "&gtt;", "&quo;", "&aposs;", "&am;", "&;", "&#X41;", "&#-1;", "&#4294967361;", "&#x100000041;",
	"<b>", "</b>", "<b></c>", "<b></bb>", "<bb></b>", "<b></b", "<b", "<b/", "<b/ >", "<b />>", "<b><", "<b></", "</>", "<b></>", "<b></ b>", "<b></b a='1'>", "<b></b/>", "<b/></b>", "<b><c></b></c>", "<b></B>",
	"<b a/>", "<b a=/>", "<b a=1/>", "<b a='1/>", "<b a='<'/>", "<b a='&'/>", "<b a='&amp'/>", "<b a='&#0;'/>", "<b a='1'c='2'/>", "<b a='1' a='2'/>", "<b a='1' c='2' a='3'/>", "<b 1='a'/>", "<b a'1'/>", "<b a=='1'/>", "<b ='1'/>", "<b a='1\"/>", "<b a='1' /c/>", "<b a='1'/ >",
	"< b/>", "<1/>", "<-b/>", "<b$/>", "<b,c/>", "<b a$='1'/>", "<\xc3\x97/>", "<?q", "<?q v", "<?q v?", "<?q v>", "<? q?>", "<?1?>", "<?", "<?xml?>", "<?xml version='1.0'?>", "<?XML v?>", "<?xMl ?>", "<?q/?>", "<?q>?>", "<?q$v?>",
	"<!DOCTYPE a>", "<!ELEMENT a ANY>", "<!x>", "\xff", "\xc3", "\xe6\x97", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xe0\x80\x80", "\x80", "\xef\xbf\xbe", "<b\xff/>", "<b a='\xff'/>", "<!--\xff-->", "<?q \xff?>", "<![CDATA[\xff]]>", "<b a='\xef\xbf\xbf'/>", "<!--\xef\xbf\xbf-->",
	"<p:b/>", "<b p:a=''/>", "<b xmlns:p=''/>", "<b xmlns:xmlns='x'/>", "<b xmlns:xml='x'/>", "<b xmlns:p='http://www.w3.org/XML/1998/namespace'/>", "<b xmlns='http://www.w3.org/2000/xmlns/'/>", "<xmlns:b/>", "<b xmlns:n='http://www.w3.org/2000/xmlns/'/>",
	"<b xmlns:p='w' xmlns:q='w' p:a='1' q:a='2'/>", "<b xmlns:p='w' xmlns:p='z'/>", "<b xmlns='w' xmlns='z'/>", "<b xmlns:n='w'/><n:b/>", "<b xmlns:n='w'></b><c n:a=''/>", "<b xmlns:n='w' xmlns:m='&#119;' n:a='1' m:a='2'></b>", "<b x:a='1' xmlns:n='w'/>", "<xm:b/>", "<xmll:b/>", "<b xm:a=''/>",
	"<b xmll:a=''/>", "<b xmlns:n='w'><c/></b><n:d/>", "<b xmlns:n='w'><c xmlns:m='w' n:a='' m:a=''/></b>", "<b xmlns:n='w' xmlns:m='z'><c xmlns:m='w' n:a='' m:a=''/></b>", "<b><c xmlns:n='w'/><n:d/></b>", "<b xmlns:n='w' n:a='' n:a=''/>",
	"<b xmlns:n='http://www.w3.org/XML/1998/&#110;amespace'/>", "<b xmlns:n='w'><c xmlns:n=''/></b>",
}

var transOnce sync.Once
var transSurs []surrounding
var transInside []surrounding
var transFrags [5][]string
var transOK [5][]bool

func seqs(l []string, n int, f func(int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func transInit() {
	add := func(name, pre, post string) { transSurs = append(transSurs, surrounding{name, pre, post}) }
	// depth
	for _, k := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 200, 249, 250, 251, 252, 253, 254, 255} {
		add("depth", rep("<e>", k), rep("</e>", k))
	}
	for _, k := range []int{1, 2, 3, 4, 5, 6, 7, 9, 17, 33, 64, 65, 71, 129, 251} {
		var pre, post string
		for i := 0; i < k; i++ {
			pre += fmt.Sprintf("<p%d:e xmlns:p%d='u%d'>", i, i, i)
			post = fmt.Sprintf("</p%d:e>", i) + post
		}
		add("depth with declarations", pre, post)
		add("depth with one prefix", rep("<p:e xmlns:p='u' p:a='1'>", k), rep("</p:e>", k))
		add("depth with attributes", rep("<e a='1' b='2'>", k), rep("</e>", k))
		add("depth with siblings", rep("<e><s/>", k), rep("<s/></e>", k))
		add("depth with trees", rep("<e>t<s><t/><t/></s>", k), rep("<s><t/></s></e>", k))
		add("depth with other content", rep("<e><!--c--><?p v?>\n", k), rep("<![CDATA[c]]></e>\r\n", k-1)+"<![CDATA[c]]></e>")
		add("depth behind depth", "<r>"+rep("<e>", k)+rep("</e>", k)+rep("<e>", k/2), rep("</e>", k/2)+"</r>")
	}
	// siblings
	units := []string{"<s/>", "<s>t</s>", "<s><t/></s>", "<s><t><u/></t></s>", "<s><t><u><v/></u></t></s>", "<!--c-->", "<?p v?>", "<?p?>", "<![CDATA[c]]>", "t&amp;", "<s a='1' b='2'/>", "<p:s xmlns:p='u' p:a=''/>", "\n", "<s xmlns='u'/>", "<s>]</s>"}
	for _, u := range units {
		for _, k := range []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 129, 257} {
			add("siblings", "<r>"+rep(u, k), "</r>")
			if k <= 9 || k == 33 || k == 129 {
				add("siblings around", "<r>"+rep(u, k), rep(u, k)+"</r>")
				add("siblings deep", "<r><x><y>"+rep(u, k), "</y></x>"+u+"</r>")
				add("siblings deeper", "<r><x><y><z><w>"+rep(u, k), rep(u, k)+"</w></z></y></x></r>")
				add("behind a closed parent", "<r><x>"+rep(u, k)+"</x><y>", "</y></r>")
			}
		}
	}
	for _, k := range []int{1000, 2500, 5200} {
		for i, u := range units {
			if i%3 == k/500%3 {
				add("many siblings", "<r>"+rep(u, k), rep(u, 2)+"</r>")
			}
		}
	}
	// offsets
	for _, k := range []int{60, 119, 250, 509, 1000, 1020, 2040, 4080, 8185, 9000, 16370, 32760, 65500, 65530, 66000, 131060, 262130} {
		add("offset", "<r>"+rep("t", k), "</r>")
		if k < 70000 {
			add("offset by comment", "<!--"+rep("t", k)+"--><r>", "</r>")
			add("offset by space", "<r>"+rep(" ", k)+"<b/>", rep(" ", k)+"</r>")
			add("offset by lines", "<r>"+rep("t\n", k/2), "</r>")
			add("offset by attribute", "<r a='"+rep("t", k)+"'>", "</r>")
			add("offset by wide characters", "<r>"+rep("\xe6\x97\xa5", k/3), rep("\xc3\xa9", k/2)+"</r>")
		}
	}
	// prolog
	decls := []string{"", "\xef\xbb\xbf", "<?xml version='1.0'?>", "<?xml version='1.1'?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version='1.0' encoding='ASCII'?>", "<?xml version=\"1.0\" encoding=\"us-ascii\" standalone=\"yes\"?>\n",
		"<?xml version='1.0' standalone='no'?>\r\n", "\xef\xbb\xbf<?xml version='1.0' encoding='utf-8'?>", "\n"}
	misc := []string{"", "<!--c-->", "<?p v?>", "<!DOCTYPE r>", "<!DOCTYPE r [<!ENTITY e 'v'>]>\n", "<!DOCTYPE r SYSTEM 's'><!--c-->", "<?p?>\n<!---->\n"}
	for i, d := range decls {
		for j, m := range misc {
			add("prolog", d+m+"<r>", "</r>")
			add("prolog, deep", d+m+"<r><x><y z='1'><s/><e>", "</e></y></x></r>"+[]string{"", "<!--c-->", "\n<?p v?>"}[(i+j)%3])
		}
	}
	// attributes and declarations above
	for _, k := range []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 32, 33, 41, 64, 65, 71, 128, 129, 256, 257, 300} {
		at := seqs(nil, k, func(i int) string { return fmt.Sprintf(" a%d='v'", i) })
		pa := seqs(nil, k, func(i int) string { return fmt.Sprintf(" h:a%d='v'", i) })
		de := seqs(nil, k, func(i int) string { return fmt.Sprintf(" xmlns:h%d='v%d'", i, i) })
		add("attributes", "<r"+at+">", "</r>")
		add("prefixed attributes", "<r xmlns:h='u'"+pa+">", "</r>")
		add("declarations", "<r"+de+">", "</r>")
		add("declarations of an empty sibling", "<r><s"+de+"/>", "</r>")
		add("declarations of a closed sibling", "<r><s"+de+">t</s>", "</r>")
		add("attributes of a sibling", "<r><s xmlns:h='u'"+at+pa+"/><s/>", "</r>")
	}
	// neighbours
	for _, a := range piecesOK {
		add("behind", "<r>"+a, "</r>")
		add("before", "<r>", a+"</r>")
		add("behind, deep", "<r><x><y><z>"+a, "</z></y></x></r>")
		for _, b := range piecesOK {
			add("neighbours", "<r>"+a+b, "</r>")
			add("between", "<r>"+a, b+"</r>")
		}
	}
	transFrags[0] = append(append([]string{}, piecesOK...), piecesBad...)
	for k := range enumCtxs {
		switch enumCtxs[k].name {
		case "document", "prolog pi", "trailing", "declaration", "encoding name", "doctype", "start bytes":
			continue
		}
		for l := 0; l <= 2; l++ {
			(&Enum{Ctx: k, Rest: l}).each(func(d []byte) error {
				transFrags[1] = append(transFrags[1], string(d))
				return nil
			})
		}
	}
	transFrags[2] = twinPieces()
	transFrags[3] = respaced(append(append([]string{}, transFrags[0]...), transFrags[2][:len(twinOthers)+2*len(twinTemplates)]...))
	transFrags[4] = insideBits
	transInside = insideSurs()
	for s := range transFrags {
		for _, f := range transFrags[s] {
			transOK[s] = append(transOK[s], refxml.Parse([]byte("<a>"+f+"</a>")).Verdict == refxml.Accept)
		}
	}
}

func (tr *Trans) surs() []surrounding {
	if tr.Set == 4 {
		return transInside
	}
	return transSurs
}

func (tr *Trans) each(f func(doc []byte) error) error {
	transOnce.Do(transInit)
	if tr.Set < 0 || tr.Set >= len(transFrags) || tr.Sur < 0 || tr.Sur >= len(tr.surs()) {
		return nil
	}
	s, step := &tr.surs()[tr.Sur], max(1, tr.Step)
	n := 0
	for k, p := range transFrags[tr.Set] {
		if tr.OK && !transOK[tr.Set][k] && tr.Set != 4 {
			continue
		}
		if n++; (n+tr.Sur)%step != 0 {
			continue
		}
		post := s.post
		if tr.Open {
			post = ""
		}
		if err := f([]byte(s.pre + p + post)); err != nil {
			return err
		}
	}
	return nil
}

// transParts lists parts of the family. work bounds, per surrounding, about how many bytes
// are parsed: large surroundings get fewer pieces, and so do the many pairs of neighbours.
func transParts(tier string, set, work int, ok bool) []*Trans {
	transOnce.Do(transInit)
	if tier == "thorough" {
		work *= 12
	}
	n := 0
	for k := range transFrags[set] {
		if !ok || transOK[set][k] || set == 4 {
			n++
		}
	}
	var out []*Trans
	surs := (&Trans{Set: set}).surs()
	for i := range surs {
		s := &surs[i]
		w := work
		if (set == 2 || set == 3) && i != 0 && (i%41 != 0 || len(s.pre) > 2000) {
			continue
		}
		if s.name == "neighbours" || s.name == "between" {
			w /= 8
		}
		size := len(s.pre) + len(s.post) + 250
		take := w / size
		if least := min(n, 24); take < least && set != 4 {
			take = least
		}
		take = max(1, take)
		step := (n + take - 1) / take
		if step > n {
			step = n
		}
		out = append(out, &Trans{Sur: i, Set: set, Step: step, OK: ok})
	}
	return out
}

func (tr *Trans) label() string {
	transOnce.Do(transInit)
	if tr.Sur < 0 || tr.Sur >= len(tr.surs()) {
		return "transplants"
	}
	return "transplants: " + tr.surs()[tr.Sur].name
}
