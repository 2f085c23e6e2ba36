package main

import (
	"fmt"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"pgregory.net/rapid"

	"verif/harness/refxml"
)

var dirNames = []string{"Root", "Parent", "FirstChild", "LastChild", "NextSibling", "PrevSibling"}
var dirs = []navigation.Direction{navigation.Root, navigation.Parent, navigation.FirstChild, navigation.LastChild,
	navigation.NextSibling, navigation.PrevSibling}

// MoveCase is a document and a sequence of moves; 6 stands for a complete walk in
// document order, 7 for one in reverse, 10+k for the way to the k-th element (modulo
// their number) from first children on and -10-k for the way from last children on.
type MoveCase struct {
	Doc   Blob  `json:"doc"`
	O     Opts  `json:"o"`
	Moves []int `json:"moves"`
	Part  *Part `json:"part,omitempty"` // instead: many small documents
}

// genTree writes random element trees that vary most at the levels the location caches
// cover.
func genTree(t *rapid.T) []byte {
	var b strings.Builder
	budget := pick(t, 6, 10, 20, 20, 40, 40, 80, 200)
	maxDepth := pick(t, 2, 3, 4, 4, 5, 5, 6, 7, 10)
	bushy := pick(t, 50, 65, 80)
	var el func(depth int)
	el = func(depth int) {
		budget--
		name := pick(t, "a", "b", "cc")
		b.WriteString("<" + name)
		if chance(t, 1, 10) {
			b.WriteString(" x='1'")
		}
		if depth > 0 && (depth >= maxDepth || !chance(t, bushy, 100)) {
			b.WriteString(pick(t, "/>", "></"+name+">", ">t</"+name+">", "><!--c--></"+name+">"))
			return
		}
		b.WriteString(">")
		for {
			if chance(t, 1, 8) {
				b.WriteString(pick(t, "t", " ", "<!--c-->", "<?p?>", "<![CDATA[x]]>"))
			}
			if budget <= 0 || !(chance(t, 3, 4) || (depth == 0 && chance(t, 3, 4))) {
				break
			}
			el(depth + 1)
		}
		b.WriteString("</" + name + ">")
	}
	if chance(t, 1, 10) {
		b.WriteString("<!--p-->")
	}
	el(0)
	return []byte(b.String())
}

func genMoves(t *rapid.T) []int {
	var ms []int
	style := n(t, 0, 4)
	for k := n(t, 3, pick(t, 6, 12, 40, 120)); k > 0; k-- {
		switch style {
		case 0: // uniform
			ms = append(ms, n(t, 0, 5))
		case 1: // downwards and sideways
			ms = append(ms, weighted(t, 1, 6, 14, 10, 14, 10))
		case 2: // jump up, go down elsewhere
			ms = append(ms, weighted(t, 3, 12, 10, 10, 10, 10))
		case 3: // runs of one move
			m := n(t, 1, 5)
			for r := n(t, 1, 8); r > 0; r-- {
				ms = append(ms, m)
			}
		case 4: // visit elements anywhere, with some steps around each
			m := 10 + n(t, 0, 300)
			if chance(t, 1, 2) {
				m = -m
			}
			ms = append(ms, m)
			for r := n(t, 0, 4); r > 0; r-- {
				ms = append(ms, n(t, 1, 5))
			}
		}
	}
	if chance(t, 1, 3) {
		ms = append([]int{pick(t, 6, 7, 10+n(t, 0, 300), -10-n(t, 0, 300))}, ms...)
	}
	if chance(t, 1, 6) {
		ms = append(ms, 6, 7)
	}
	return ms
}

// model of the cursor: nil is the document itself.
func moveModel(root, cur *refxml.Elem, dir int) (*refxml.Elem, bool) {
	switch dir {
	case 0:
		return root, true
	case 1:
		if cur == nil {
			return nil, false
		}
		return cur.Parent, true
	case 2, 3:
		if cur == nil {
			return root, true
		}
		if len(cur.Children) == 0 {
			return cur, false
		}
		if dir == 2 {
			return cur.Children[0], true
		}
		return cur.Children[len(cur.Children)-1], true
	case 4, 5:
		if cur == nil || cur.Parent == nil {
			return cur, false
		}
		k := cur.Index + 1
		if dir == 5 {
			k = cur.Index - 1
		}
		if k < 0 || k >= len(cur.Parent.Children) {
			return cur, false
		}
		return cur.Parent.Children[k], true
	}
	return cur, false
}

func where(e *refxml.Elem) string {
	if e == nil {
		return "document"
	}
	return fmt.Sprintf("element token %d (depth %d, child %d)", e.Tok, e.Depth, e.Index)
}

// walker drives a navigation object and the model in step.
type walker struct {
	nav   *navigation.VtdNav
	root  *refxml.Elem
	cur   *refxml.Elem
	trace []string
	steps int
	fails int
	deep  int
}

func (w *walker) at() error {
	want := int32(0)
	if w.cur != nil {
		want = int32(w.cur.Tok)
		if w.cur.Depth > w.deep {
			w.deep = w.cur.Depth
		}
	}
	got, err := w.nav.GetCurrentIndex()
	if err != nil {
		return fmt.Errorf("GetCurrentIndex: %v", err)
	}
	if got != want {
		return fmt.Errorf("cursor at token %d, want %s", got, where(w.cur))
	}
	return nil
}

func (w *walker) move(dir int) error {
	to, ok := moveModel(w.root, w.cur, dir)
	w.steps++
	if len(w.trace) < 400 {
		w.trace = append(w.trace, dirNames[dir])
	}
	got, err := w.nav.ToElement(dirs[dir])
	if err != nil {
		return w.fail(fmt.Errorf("error %v", err), dir)
	}
	if got != ok {
		return w.fail(fmt.Errorf("returned %v, want %v", got, ok), dir)
	}
	if !ok {
		w.fails++
	}
	from := w.cur
	w.cur = to
	if err := w.at(); err != nil {
		w.cur = from
		return w.fail(err, dir)
	}
	return nil
}

func (w *walker) fail(err error, dir int) error {
	return fmt.Errorf("%s from %s: %w\nmoves %s", dirNames[dir], where(w.cur), err, strings.Join(w.trace, " "))
}

// walk visits the whole tree in (reverse) document order by moves only.
func (w *walker) walk(reverse bool) error {
	down, side := 2, 4
	if reverse {
		down, side = 3, 5
	}
	if err := w.move(0); err != nil {
		return err
	}
	for {
		if len(w.cur.Children) > 0 {
			if err := w.move(down); err != nil {
				return err
			}
			continue
		}
		if err := w.move(down); err != nil { // no child
			return err
		}
		for {
			here := w.cur
			if err := w.move(side); err != nil {
				return err
			}
			if w.cur != here {
				break
			}
			if err := w.move(1); err != nil {
				return err
			}
			if w.cur == nil {
				return nil
			}
		}
	}
}

// path goes to an element from wherever the cursor is, by moves only.
func (w *walker) path(to *refxml.Elem, fromLast bool) error {
	for w.cur != nil && !isAncestor(w.cur, to) {
		if err := w.move(1); err != nil {
			return err
		}
	}
	for w.cur != to {
		next := to
		for next.Parent != w.cur {
			next = next.Parent
		}
		down, side := 2, 4
		if fromLast {
			down, side = 3, 5
		}
		if err := w.move(down); err != nil {
			return err
		}
		for w.cur != next {
			if err := w.move(side); err != nil {
				return err
			}
		}
	}
	return nil
}

func isAncestor(a, b *refxml.Elem) bool {
	for ; b != nil; b = b.Parent {
		if a == b {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "random element trees (dense at the levels the location caches cover, and deep, wide and repeated shapes) with random sequences of up to several hundred moves, plus complete walks in both directions and every enumerated small tree; cursor compared after every move with a tree built by an independent parser; " +
			"non-trivial: the cursor reached depth 2 and some move succeeded below the root; oracle_comparisons counts moves",
		New: func() any { return &MoveCase{} },
		Gen: func(t *rapid.T) any {
			mc := &MoveCase{}
			mc.O = Opts{LC: pick(t, 0, 3, 5), Reuse: chance(t, 1, 8)}
			switch weighted(t, 16, 3, 2) {
			case 0:
				mc.Doc = genTree(t)
				mc.O.NS = chance(t, 1, 2)
			case 1:
				mc.O.NS = chance(t, 1, 2)
				mc.Doc = genDoc(t, DocCfg{NS: mc.O.NS})
			default:
				mc.Doc = genShape(t, true)
				mc.O.NS = chance(t, 1, 2)
			}
			mc.Moves = genMoves(t)
			return mc
		},
		Check: checkMoves,
		Quick: 60000, Thorough: 3000000,
		Fixed: func(tier string) []any {
			// every small tree, walked both ways and by every short move sequence
			d := 6
			if tier == "thorough" {
				d = 8
			}
			var out []any
			for _, doc := range smallTrees(d) {
				for _, lc := range []int{3, 5} {
					out = append(out, &MoveCase{Doc: Blob(doc), O: Opts{LC: lc}, Moves: []int{6, 7, 6, 1, 2, 3, 5, 5, 2, 4, 5, 1, 1, 4, 3}})
				}
			}
			for i, p := range partList(tier, 1, 1) {
				out = append(out, &MoveCase{Part: p, O: Opts{NS: i%4 == 3}, Moves: []int{6, 7, 2, 3, 4, 2, 5, 4, 1, 2, 2, 3, 1, 1, 4, 0, 3, 2, 5, 1}})
			}
			for i, p := range append(scaled(tier, 0, "children", "tokens", "offsets"), scaled(tier, 4100, "values", "attributes", "twins")...) {
				out = append(out, &MoveCase{Part: p, O: Opts{NS: i%2 == 1}, Moves: []int{6, 7, 5, 2, 5, 4, 1, 3}})
			}
			for _, p := range scaled(tier, 0, "counts") {
				out = append(out, &MoveCase{Part: p, O: Opts{LC: 3}, Moves: []int{6, 7}}, &MoveCase{Part: p, O: Opts{LC: 5}, Moves: []int{6, 7}})
			}
			for i, p := range transplanted(tier, 0, 15000, true) {
				out = append(out, &MoveCase{Part: p, O: Opts{NS: i%2 == 1}, Moves: []int{6, 7, 2, 3, 2, 5, 4, 4, 1, 3, 1, 2}})
			}
			bigDocs(tier, func(doc []byte, shape, size int) {
				for _, lc := range []int{3, 5} {
					if lc == 3 || size <= 65537 || tier == "thorough" {
						out = append(out, &MoveCase{Doc: doc, O: Opts{LC: lc}, Moves: []int{6, 7}})
					}
				}
			})
			return out
		},
	})
}

func checkMoves(c *Ctx, v any) error {
	mc := v.(*MoveCase)
	if mc.Part != nil {
		return mc.Part.run(c, func(doc []byte, k int) any {
			lc := mc.O.LC
			if lc == 0 {
				lc = 3 + 2*(k%2)
			}
			return &MoveCase{Doc: doc, O: Opts{LC: lc, NS: mc.O.NS, Reuse: k%5 == 4}, Moves: mc.Moves}
		}, checkMoves)
	}
	r, ok := accepted(c, mc.Doc)
	if !ok || (mc.O.NS && r.NS != refxml.Accept) {
		return nil
	}
	nav, err := parse(mc.Doc, mc.O)
	if err != nil {
		c.Label("rejected by the library")
		return nil
	}
	renumber(r)
	w := &walker{nav: nav, root: r.Root}
	if err := w.at(); err != nil {
		return fmt.Errorf("before any move: %w", err)
	}
	for _, m := range mc.Moves {
		switch {
		case m >= 0 && m < 6:
			err = w.move(m)
		case m == 6:
			err = w.walk(false)
		case m == 7:
			err = w.walk(true)
		case m >= 10:
			err = w.path(r.Elems[(m-10)%len(r.Elems)], false)
		case m <= -10:
			err = w.path(r.Elems[(-m-10)%len(r.Elems)], true)
		}
		if err != nil {
			return fmt.Errorf("%w\nopts %+v doc %s", err, mc.O, show(mc.Doc))
		}
	}
	c.Evals(w.steps)
	if w.deep >= 2 {
		c.NonTrivial()
	}
	c.Label(fmt.Sprintf("deepest cursor %d", min(w.deep, 8)))
	c.Label(fmt.Sprintf("lc %d", mc.O.LC))
	if w.fails > 0 {
		c.Label("with failing moves")
	}
	return nil
}

// smallTrees lists every ordered tree of up to k elements.
func smallTrees(k int) []string {
	memo := map[int][]string{}
	var forests func(n int) []string // every forest of n nodes
	forests = func(n int) []string {
		if n == 0 {
			return []string{""}
		}
		if f, ok := memo[n]; ok {
			return f
		}
		var out []string
		for first := 1; first <= n; first++ {
			for _, in := range forests(first - 1) {
				for _, rest := range forests(n - first) {
					out = append(out, "<a>"+in+"</a>"+rest)
				}
			}
		}
		memo[n] = out
		return out
	}
	var out []string
	for m := 0; m < k; m++ {
		for _, f := range forests(m) {
			out = append(out, "<r>"+f+"</r>")
		}
	}
	return out
}
