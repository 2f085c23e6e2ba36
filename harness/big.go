package main

import (
	"fmt"
	"strings"
)

// Large documents on either side of the sizes at which the parser picks other page sizes
// for its record buffers, each dense in one kind of record, so that every buffer runs
// over many pages of every page size.

var bigSizes = []int{1023, 1024, 1025, 4095, 4096, 4097, 16384, 16385, 65536, 65537, 262144, 262145, 700000}

const bigShapes = 9

// bigDoc writes the document of a shape, filled up to a size in bytes.
func bigDoc(shape, size int) []byte {
	var b strings.Builder
	end := ""
	switch shape {
	case 1:
		b.WriteString("<r><a>")
		end = "</a></r>"
	case 2:
		b.WriteString("<r><a/><b><a>")
		end = "</a><c/></b></r>"
	case 3:
		b.WriteString("<r><a><b><c>")
		end = "</c></b></a></r>"
	case 8:
		b.WriteString("<r xmlns:p='u'>")
		end = "</r>"
	default:
		b.WriteString("<r>")
		end = "</r>"
	}
	for i := 0; ; i++ {
		var u string
		switch shape {
		case 0, 1, 2, 3: // one level full
			u = "<d/>"
		case 4: // every level of the caches, irregular
			u = "<a>" + strings.Repeat("<b/>", i%3) + "<b>" + strings.Repeat("<c/>", i%4) + "</b></a>"
			if i%5 == 0 {
				u = "<a/>"
			}
		case 5: // deep
			u = "<a><b><c><d><e/></d><d/></c></b></a>"
		case 6: // attributes, references and other content
			u = fmt.Sprintf("<a b='%d' c='&amp;'>t&#65;<!--%d--><?p v?></a>", i, i)
		case 7: // parents with many children now and then
			u = "<a/>"
			if i%50 == 49 {
				u = "<a>" + strings.Repeat("<b/>", 40) + "<b>" + strings.Repeat("<c/>", 70) + "</b></a>"
			}
		case 8:
			u = fmt.Sprintf("<p:a p:b='' xmlns:q%d='v'><q%d:c q%d:d='' p:d=''/></p:a>", i%7, i%7, i%7)
		}
		if b.Len()+len(u)+len(end) > size {
			break
		}
		b.WriteString(u)
	}
	b.WriteString(end)
	if k := size - b.Len(); k > 0 {
		b.WriteString(strings.Repeat("\n", k))
	}
	return []byte(b.String())
}

// bigDocs calls f for every size and shape; less than a third of the largest in the quick
// tier.
func bigDocs(tier string, f func(doc []byte, shape, size int)) {
	for _, s := range bigSizes {
		for k := 0; k < bigShapes; k++ {
			if s < 700000 || tier == "thorough" || k%3 == 0 {
				f(bigDoc(k, s), k, s)
			}
		}
	}
	if tier == "thorough" {
		for k := 0; k < bigShapes; k++ {
			f(bigDoc(k, 3<<20), k, 3<<20)
		}
	}
}

// sizedJobs are jobs on documents of one size class, or of neighbouring ones, with other
// contents: what one of them keeps must not reach the others.
func sizedJobs(tier string, largest int) [][]Job {
	var out [][]Job
	classes := []int{200, 900, 3000, 12000, 40000, 150000, 400000}
	for c, size := range classes {
		if size > largest && tier != "thorough" || size > 2*largest {
			break
		}
		for a := 0; a < bigShapes; a++ {
			if size > 20000 && tier != "thorough" && (a+c)%3 != 0 {
				continue
			}
			for v := 0; v < 4; v++ {
				if size > 5000 && tier != "thorough" && (a+v)%4 != 0 {
					continue
				}
				sizes := []int{size, size - size/5, size}
				if v == 1 && c > 0 {
					sizes[1] = classes[c-1]
				}
				var jobs []Job
				for k := 0; k < 2+v%2; k++ {
					jobs = append(jobs, Job{
						Doc:   bigDoc((a+k*(2+v))%bigShapes, sizes[k]),
						O:     Opts{NS: (a+v)%2 == 0, LC: 3 + 2*((a/2+v)%2), Reuse: v < 2 || v == 2 && k == 0},
						Moves: []int{2, 2, 4, 4, 3, 1, 3, 5, 2, 4}[(a+k)%4:],
						Every: 1 + size/400,
					})
				}
				out = append(out, jobs)
			}
		}
	}
	return out
}
