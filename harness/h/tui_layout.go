package h

import (
	"fmt"

	"github.com/gdamore/tcell/v2"

	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/rivo/tview"
)

func init() {
	for k, f := range map[string]func(){"LayoutNames": LayoutNames, "LayoutColors": LayoutColors} {
		All[k] = f
	}
}

var oddNames = []string{"[low]", "low [red]", "[-]", "[]", "[a[b]", `["x"]`, "[low", "low]", "[::b]", "[#ff0000]", "grün", "[1,2)", "(1;2]"}

// shown is what a table cell shows.
func shown(text string) string {
	return tview.NewTextView().SetDynamicColors(true).SetText(text).GetText(true)
}

// LayoutNames: names and labels are shown as they are, even if they look like the tags of the library.
func LayoutNames() {
	o := oddNames[vh.Choose("outcome", len(oddNames))]
	n := oddNames[vh.Choose("name", len(oddNames))]
	doc := fmt.Sprintf("name: Odd\nvariables:\n- variable: '%s'\n  position: [%d, 1]\n  outcomes: ['%s', no]\n  table:\n  - [0.25, 0.75]\n", n, vh.Choose("x", 2), o)
	app(doc, nil, func(m *appModel) {
		m.runeKey('t')
		t := m.table
		vh.Assert(shown(t.GetCell(0, 0).Text) == o, "the label in the table")
	})
}

// LayoutColors: every node has its colour.
func LayoutColors() {
	c := []string{"", "black", "red"}
	doc := fmt.Sprintf("name: Colours\nvariables:\n- variable: a\n  position: [%d, 1]\n  color: %s\n  outcomes: [yes, no]\n  table:\n  - [0.25, 0.75]\n", vh.Choose("x", 2), c[vh.Choose("color", 3)])
	doc += fmt.Sprintf("- variable: b\n  position: [%d, %d]\n  color: %s\n  outcomes: [yes, no]\n  table:\n  - [0.25, 0.75]\n", 25*vh.Choose("x", 2), 5*vh.Choose("y", 2), c[vh.Choose("color", 3)])
	app(doc, nil, func(m *appModel) {})
}

func init() {
	All["LayoutEdge"] = LayoutEdge
	All["LayoutThree"] = LayoutThree
	All["LayoutMany"] = LayoutMany
}

// LayoutEdge: two nodes anywhere with an edge between them.
func LayoutEdge() {
	x, y := vh.Fix(vh.Int("x", 0, deep(64, 90))), vh.Fix(vh.Int("y", 0, deep(20, 30)))
	pos := []string{"[30, 8]", "[" + vh.IntText(vh.Fix(x)) + ", " + vh.IntText(vh.Fix(y)) + "]"}
	k := vh.Choose("child", 2)
	doc := "name: Edge\nvariables:\n- variable: a\n  position: " + pos[k] + "\n  outcomes: [yes, no]\n  table:\n  - [0.25, 0.75]\n" +
		"- variable: b\n  position: " + pos[1-k] + "\n  given: [a]\n  outcomes: [low, medium, high]\n  table:\n  - [0.25, 0.5, 0.25]\n  - [0.5, 0.25, 0.25]\n"
	app(doc, nil, func(m *appModel) {
		c, _ := m.canvas()
		m.edge(c, m.nodes[0], m.nodes[1])
		if y%2 == 0 {
			m.specialKey(tcell.KeyTab)
		}
		m.runeKey(rune("wasd"[(x+y/2)%4]))
		m.check()
		c, _ = m.canvas()
		m.edge(c, m.nodes[0], m.nodes[1])
	})
}

type cell struct{ x, y int }

func (n nodeBox) has(x, y int) bool { return x >= n.x && x < n.x+n.w && y >= n.y && y < n.y+n.h }

// touches: the cell is next to the node.
func (n nodeBox) touches(c cell) bool {
	return n.has(c.x-1, c.y) || n.has(c.x+1, c.y) || n.has(c.x, c.y-1) || n.has(c.x, c.y+1)
}

// edge: outside of the nodes there is just a line from one to the other, with an arrow head.
func (m *appModel) edge(c [][]rune, from, to nodeBox) {
	var cells []cell
	for y, l := range c {
		for x, r := range l {
			if r != ' ' && !from.has(x, y) && !to.has(x, y) {
				cells = append(cells, cell{x, y})
			}
		}
	}
	hgap := to.x > from.x+from.w || from.x > to.x+to.w
	vgap := to.y > from.y+from.h || from.y > to.y+to.h
	hover := to.x < from.x+from.w && from.x < to.x+to.w
	vover := to.y < from.y+from.h && from.y < to.y+to.h
	if hover && !vgap || vover && !hgap {
		vh.Assert(len(cells) == 0, "no edge where there is no space")
		return
	}
	arrows := 0
	start := false
	for _, p := range cells {
		n := 0
		for _, q := range cells {
			dx, dy := p.x-q.x, p.y-q.y
			if dx*dx+dy*dy == 1 {
				n++
			}
		}
		switch c[p.y][p.x] {
		case 'v':
			arrows++
			vh.Assert(to.has(p.x, p.y+1), "the arrow head points to the child")
		case '^':
			arrows++
			vh.Assert(to.has(p.x, p.y-1), "the arrow head points to the child")
		case '<':
			arrows++
			vh.Assert(to.has(p.x-1, p.y), "the arrow head points to the child")
		case '>':
			arrows++
			vh.Assert(to.has(p.x+1, p.y), "the arrow head points to the child")
		case '│', '─', '┌', '┐', '└', '┘':
			vh.Assert(n == 2 || n == 1 && from.touches(p), "the line is connected")
		default:
			vh.Fail("a part of an edge")
		}
		start = start || from.touches(p)
	}
	vh.Assert(arrows == 1, "one arrow head")
	vh.Assert(start, "the line starts at the parent")
}

// LayoutThree: three nodes in any order of declaration, with any edges; drawing stays inside the canvas, and the nodes
// are shown.
func LayoutThree() {
	x, y := vh.Int("x", 0, deep(40, 80)), vh.Int("y", 0, deep(14, 24))
	pos := []string{"[20, 7]", "[" + vh.IntText(vh.Fix(x)) + ", " + vh.IntText(vh.Fix(y)) + "]", "[45, 0]"}
	given := []string{"", "", ""}
	rows := 2
	switch vh.Choose("edges", 3) {
	case 0:
		given[0], given[2] = "[b]", "[a]"
	case 1:
		given[1] = "[c, a]"
		rows = 4
	case 2:
		given[2] = "[b, a]"
		rows = 4
	}
	doc := "name: Three\nvariables:\n"
	for i, n := range []string{"a", "b", "c"} {
		doc += "- variable: " + n + "\n  position: " + pos[i] + "\n  outcomes: [yes, no]\n"
		r := 1
		if given[i] != "" {
			doc += "  given: " + given[i] + "\n"
			r = rows
		}
		doc += "  table:\n"
		for ; r > 0; r-- {
			doc += "  - [0.25, 0.75]\n"
		}
	}
	app(doc, nil, func(m *appModel) {
		m.specialKey(tcell.KeyTab)
		m.runeKey(rune("wasd"[vh.Choose("move", 4)]))
		m.check()
	})
}

// LayoutMany: a node with many parents, all of its edges are drawn.
func LayoutMany() {
	k := 2 + vh.Choose("parents", 6)
	side := vh.Choose("side", 2)
	px, cx := "[0, ", "[60, "
	if side == 1 {
		px, cx = cx, px
	}
	given := ""
	pars := ""
	for i := 0; i < k; i++ {
		pars += fmt.Sprintf("- variable: p%d\n  position: %s%d]\n  outcomes: [yes, no]\n  table:\n  - [0.25, 0.75]\n", i, px, 7*i)
		if i > 0 {
			given += ", "
		}
		given += fmt.Sprintf("p%d", (i*5+2)%k)
		if k == 5 {
			given = "p0, p1, p2, p3, p4"
		}
	}
	child := fmt.Sprintf("- variable: child\n  position: %s%d]\n  given: [%s]\n  outcomes: [low, high]\n  table:\n", cx, 5+vh.Choose("height", 3)*6, given)
	for i := 0; i < 1<<k; i++ {
		child += "  - [0.25, 0.75]\n"
	}
	first := vh.Choose("child first", 2)
	doc := "name: Many\nvariables:\n" + pars + child
	if first == 1 {
		doc = "name: Many\nvariables:\n" + child + pars
	}
	app(doc, nil, func(m *appModel) {
		for i := 0; i < k; i++ {
			m.specialKey(tcell.KeyTab)
		}
		m.runeKey(rune("wasd"[vh.Choose("move", 4)]))
		m.check()
		c, _ := m.canvas()
		for i := range m.nodes {
			if m.nodes[i].v.Name == "child" {
				continue
			}
			b := m.nodes[i]
			line := false
			for y := b.y; y < b.y+b.h; y++ {
				x := b.x + b.w
				if side == 1 {
					x = b.x - 1
				}
				line = line || c[y][x] != ' '
			}
			vh.Assert(line, "a line starts at every parent")
		}
	})
}
