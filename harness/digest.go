package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
)

// visit walks over a navigation object and writes down everything it answers.
type visitor struct {
	out []string
}

func (v *visitor) say(format string, a ...any) { v.out = append(v.out, fmt.Sprintf(format, a...)) }

func errText(err error) string {
	if err == nil {
		return "-"
	}
	return errKind(err) + ": " + err.Error()
}

// tokens reads all tokens, as fields and as strings; from shifts offsets.
func (v *visitor) tokens(nav *navigation.VtdNav, shift int) {
	size := nav.GetVtdBufferSize()
	v.say("encoding %v, %d tokens", nav.GetEncoding(), size)
	for i := 0; i < size; i++ {
		r, err := record(nav, i)
		if r.Type != 13 { // the document token stands at 0
			r.Off -= int32(shift)
		}
		s, err2 := nav.ToStringAtIndex(i)
		w, err3 := nav.ToRawStringAtIndex(i)
		v.say("%d: %+v %s | %q %s | %q %s", i, r, errText(err), s, errText(err2), w, errText(err3))
	}
}

// walk goes over the tree in document order, or in reverse, by what the moves themselves
// answer.
func (v *visitor) walk(nav *navigation.VtdNav, reverse bool) {
	down, side := navigation.FirstChild, navigation.NextSibling
	if reverse {
		down, side = navigation.LastChild, navigation.PrevSibling
	}
	left := 4*nav.GetVtdBufferSize() + 100
	move := func(d navigation.Direction) bool {
		left--
		ok, err := nav.ToElement(d)
		if err != nil {
			v.say("walk: %v %s", ok, errText(err))
			left = 0
			return false
		}
		return ok
	}
	at := int32(-1)
	depth := 0
	move(navigation.Root)
	for left > 0 {
		i, err := nav.GetCurrentIndex()
		if err != nil || i == at {
			v.say("walk: at %d, again, %s", i, errText(err))
		}
		at = i
		v.out = append(v.out, strconv.Itoa(depth)+" "+strconv.Itoa(int(i)))
		if move(down) {
			depth++
			continue
		}
		for left > 0 && !move(side) {
			if depth--; depth < 0 {
				return
			}
			move(navigation.Parent)
		}
	}
	v.say("the walk does not end")
}

// step makes one move, or a complete walk, and looks where the cursor is.
func (v *visitor) step(nav *navigation.VtdNav, m int) {
	if m == 6 || m == 7 {
		v.walk(nav, m == 7)
		return
	}
	ok, err := nav.ToElement(navigation.Direction(m))
	i, err2 := nav.GetCurrentIndex()
	v.say("move %d: %v %s, at %d %s", m, ok, errText(err), i, errText(err2))
}

func (v *visitor) text() string { return strings.Join(v.out, "\n") }

// firstDiff shows where two transcripts part.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(nothing)", "(nothing)"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%s\n   but: %s", trunc(p, 600), trunc(q, 600))
		}
	}
	return "no difference"
}
