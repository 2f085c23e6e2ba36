package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Pumping: a slice of a small document is repeated many times, so that every construct is
// met in every number around the powers of two — attributes of an element, brackets in a
// row, nested elements, references in a value, white space, declarations. What is
// right about the result is for the reference parser to say.

var pumpCounts = []int{2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300}

// pumpMax is the length of the longest slice.
const pumpMax = 12

// Pump is a part of the pumping: the slices of document Doc that start in [Lo,Hi). In the
// quick tier each with some of the counts, chosen by Phase.
type Pump struct {
	Doc   int  `json:"doc"`
	Lo    int  `json:"lo"`
	Hi    int  `json:"hi"`
	Step  int  `json:"step"`
	Phase int  `json:"phase"`
	Attrs bool `json:"attrs,omitempty"` // instead: whole attributes, numbered
	Wrap  bool `json:"wrap,omitempty"`  // instead: things around the document
}

// numbered puts a number behind the first name of the slice that a '=' follows.
func numbered(s string, k int) string {
	i := strings.IndexByte(s, '=')
	return s[:i] + fmt.Sprint(k) + s[i:]
}

func (p *Pump) each(f func(doc []byte) error) error {
	if p.Doc < 0 || p.Doc >= len(sweepDocs) || p.Step < 1 {
		return nil
	}
	switch {
	case p.Attrs:
		return p.eachAttr(f)
	case p.Wrap:
		return p.eachWrap(f)
	}
	base := sweepDocs[p.Doc]
	for lo := p.Lo; lo < p.Hi && lo < len(base); lo++ {
		for l := 1; l <= pumpMax && lo+l <= len(base); l++ {
			s := base[lo : lo+l]
			step := p.Step
			if l == 1 {
				step = 1
			}
			for i := (p.Phase + lo*7 + l*3) % step; i < len(pumpCounts); i += step {
				k := pumpCounts[i]
				var b bytes.Buffer
				b.WriteString(base[:lo])
				b.WriteString(strings.Repeat(s, k))
				b.WriteString(base[lo+l:])
				if err := f(b.Bytes()); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// attributes are longer than other slices
func (p *Pump) eachAttr(f func(doc []byte) error) error {
	base := sweepDocs[p.Doc]
	for lo := p.Lo; lo < p.Hi && lo < len(base); lo++ {
		if base[lo] != ' ' && base[lo] != '\n' {
			continue
		}
		for hi := lo + 4; hi <= len(base); hi++ {
			s := base[lo:hi]
			if c := s[len(s)-1]; c != '\'' && c != '"' || strings.Count(s, string(c)) != 2 || !strings.Contains(s, "=") {
				continue
			}
			for _, k := range pumpCounts {
				for _, with := range []string{"", " ", "\n"} {
					var b bytes.Buffer
					b.WriteString(base[:lo])
					for j := 0; j < k; j++ {
						b.WriteString(numbered(s, j) + with)
					}
					b.WriteString(base[hi:])
					if err := f(b.Bytes()); err != nil {
						return err
					}
					b.Reset()
					// numbered values, too, and the plain attribute behind or before them
					b.WriteString(base[:lo])
					for j := 0; j < k; j++ {
						a := numbered(s, j)
						b.WriteString(a[:len(a)-1] + fmt.Sprint(j) + a[len(a)-1:] + with)
					}
					b.WriteString(base[lo:])
					if err := f(b.Bytes()); err != nil {
						return err
					}
					b.Reset()
					b.WriteString(base[:hi])
					for j := 0; j < k; j++ {
						a := numbered(s, j)
						b.WriteString(with + a[:len(a)-1] + fmt.Sprint(j) + a[len(a)-1:])
					}
					b.WriteString(base[hi:])
					if err := f(b.Bytes()); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

// eachWrap nests the document in elements, and puts siblings, space and other things in
// front of it.
func (p *Pump) eachWrap(f func(doc []byte) error) error {
	base := sweepDocs[p.Doc]
	if strings.HasPrefix(base, "\xef\xbb\xbf") || strings.HasPrefix(base, "<?xml ") || strings.Contains(base, "<!DOCTYPE") {
		return nil
	}
	for _, k := range append([]int{1, 11, 12, 13, 14, 249, 250, 251, 252, 253, 254}, pumpCounts...) {
		for _, w := range [][3]string{
			{"", "<w>", "</w>"},
			{"", "<w>t", "<v/></w>"},
			{"", "<w x='1'><v/>", "</w>"},
			{"", "\n<w>\n", "\n</w>\n"},
		} {
			if err := f([]byte(strings.Repeat(w[1], k) + base + strings.Repeat(w[2], k))); err != nil {
				return err
			}
		}
		for _, s := range []string{"<v/>", "<v>t</v>", "<v x=''/>", "<v><u/></v>", " ", "\n", "<!--c-->", "<?p?>", "<?p v?>"} {
			s := strings.Repeat(s, k)
			for _, d := range []string{"<w>" + s + base + "</w>", "<w>" + base + s + "</w>", s + base, base + s} {
				if err := f([]byte(d)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func pumpParts(tier string, from int) []*Pump {
	step := 12
	if tier == "thorough" {
		step = 1
	}
	var out []*Pump
	for d := from; d < len(sweepDocs); d++ {
		const chunk = 16
		for lo := 0; lo < len(sweepDocs[d]); lo += chunk {
			out = append(out, &Pump{Doc: d, Lo: lo, Hi: lo + chunk, Step: step, Phase: d})
		}
		out = append(out, &Pump{Doc: d, Hi: len(sweepDocs[d]), Step: step, Attrs: true}, &Pump{Doc: d, Step: step, Wrap: true})
	}
	return out
}
