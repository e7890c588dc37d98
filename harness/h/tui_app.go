package h

import (
	"fmt"
	"math"
	"strings"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
	"github.com/rivo/tview"
)

func init() {
	for k, f := range map[string]func(){"AppStepChain": AppStepChain, "AppStepDecision": AppStepDecision, "AppStepWeighted": AppStepWeighted,
		"AppStepImpossible": AppStepImpossible, "AppTwo": AppTwo, "AppOverlap": AppOverlap, "AppScrolled": AppScrolled,
		"AppDialog": AppDialog, "AppAnywhere": AppAnywhere, "AppMove": AppMove, "AppAfter": AppAfter} {
		All[k] = f
	}
}

// ---- the interactive tool

// screen is a terminal of fixed size that shows nothing.
type screen struct {
	tcell.Screen
	w, h int
}

func (s *screen) Size() (int, int)                                      { return s.w, s.h }
func (s *screen) Clear()                                                {}
func (s *screen) Show()                                                 {}
func (s *screen) Fini()                                                 {}
func (s *screen) HideCursor()                                           {}
func (s *screen) ShowCursor(x, y int)                                   {}
func (s *screen) SetContent(x, y int, p rune, c []rune, st tcell.Style) {}
func (s *screen) GetContent(x, y int) (rune, []rune, tcell.Style, int) {
	return ' ', nil, tcell.StyleDefault, 1
}
func (s *screen) SetStyle(st tcell.Style)                         {}
func (s *screen) SetCell(x, y int, style tcell.Style, ch ...rune) {}
func (s *screen) EnableMouse(...tcell.MouseFlags)                 {}
func (s *screen) DisableMouse()                                   {}
func (s *screen) EnablePaste()                                    {}
func (s *screen) DisablePaste()                                   {}
func (s *screen) Fill(rune, tcell.Style)                          {}
func (s *screen) Sync()                                           {}

// runApp starts the tool on a document and calls f in place of the event loop.
func runApp(doc string, evidence map[string]string, f func(a *tview.Application)) error {
	file := vh.WriteFile("net.yml", doc)
	tview.VerifDrawn = func(p tview.Primitive) {
		if t, ok := p.(*tview.Table); ok {
			for r := 0; r < t.GetRowCount(); r++ {
				for c := 0; c < t.GetColumnCount(); c++ {
					t.GetCell(r, c)
				}
			}
		}
	}
	tview.VerifRun = func(a *tview.Application) error {
		a.VerifStart(&screen{w: 100, h: 40})
		f(a)
		return nil
	}
	return tui.New(file, evidence, "", "", ',').Run()
}

// docs for the tool: a chain, decisions with a weighting of utilities, one decision without parents.
const chainDoc = `name: Chain
variables:
- variable: rain
  position: [1, 1]
  outcomes: [yes, no]
  table:
  - [0.25, 0.75]
- variable: grass
  position: [34, 2]
  given: [rain]
  outcomes: [wet, moist, dry]
  table:
  - [0.5, 0.25, 0.25]
  - [0.125, 0.125, 0.75]
`

const decisionDoc = `name: Umbrella
info: Take it or leave it.
variables:
- variable: weather
  position: [40, 8]
  outcomes: [sun, rain]
  color: red
  table:
  - [0.75, 0.25]
- variable: forecast
  position: [1, 16]
  given: [weather]
  outcomes: [good, fair, bad]
  table:
  - [0.75, 0.125, 0.125]
  - [0.25, 0.25, 0.5]
- variable: umbrella
  type: decision
  position: [0, 1]
  given: [forecast]
  outcomes: [take, leave]
- variable: comfort
  type: utility
  given: [weather, umbrella]
  position: [50, 16]
  outcomes: [utility]
  table:
  - [2]
  - [8]
  - [6]
  - [-4]
`

const weightedDoc = `name: Weighted
variables:
- variable: total
  type: utility
  given: [cost, gain]
  position: [30, 0]
  outcomes: [c, g]
  table:
  - [0.5, 2]
- variable: cost
  type: utility
  given: [act]
  position: [0, 0]
  outcomes: [utility]
  table:
  - [-4]
  - [0]
- variable: luck
  position: [2, 8]
  outcomes: [good, bad]
  table:
  - [0.5, 0.5]
- variable: act
  type: decision
  position: [40, 9]
  outcomes: [do, wait]
- variable: gain
  type: utility
  given: [act, luck]
  position: [40, 17]
  outcomes: [utility]
  table:
  - [8]
  - [1]
  - [2]
  - [0]
`

// impossibleDoc: some evidence cannot occur.
const impossibleDoc = `name: Impossible
variables:
- variable: a
  position: [1, 1]
  outcomes: [yes, no]
  table:
  - [0.5, 0.5]
- variable: b
  position: [40, 1]
  given: [a]
  outcomes: [yes, no]
  table:
  - [1, 0]
  - [0.25, 0.75]
- variable: u
  type: utility
  position: [20, 10]
  given: [a, b]
  outcomes: [utility]
  table:
  - [1]
  - [2]
  - [3]
  - [4]
`

// overlapDoc: nodes lie upon each other.
const overlapDoc = `name: Overlap
variables:
- variable: a
  position: [5, 5]
  outcomes: [yes, no]
  table:
  - [0.5, 0.5]
- variable: b
  position: [9, 7]
  given: [a]
  outcomes: [x, y, z]
  table:
  - [0.25, 0.25, 0.5]
  - [0.125, 0.125, 0.75]
`

// nodeBox is a node as the user should see it.
type nodeBox struct {
	v    bbn.Variable
	x, y int
	w, h int
}

// appModel is the state the tool should be in.
type appModel struct {
	app    *tview.Application
	doc    string
	nodes  []nodeBox
	ev     map[string]string
	sel    int
	state  int
	ignore bool
	page   string
	ended  bool
	odd    bool // names with square brackets
	graph  *tview.TextView
	help   *tview.TextView
	info   *tview.TextView
	table  *tview.Table
}

func newModel(a *tview.Application, doc string, ev map[string]string) *appModel {
	net, err := bbn.FromYAML([]byte(doc))
	noErr(err, "the document is valid")
	m := &appModel{app: a, doc: doc, ev: map[string]string{}, page: "graph"}
	for k, v := range ev {
		m.ev[k] = v
	}
	for _, v := range net.Variables() {
		for _, o := range append([]string{v.Name}, v.Outcomes...) {
			m.odd = m.odd || strings.ContainsAny(o, "[]")
		}
		b := tui.NewNode(v).Bounds()
		m.nodes = append(m.nodes, nodeBox{v: v, x: v.Position[0], y: v.Position[1], w: b.W, h: b.H})
	}
	if net.Info() != "" {
		m.page = "info"
	}
	for _, t := range tview.VerifViews(a.VerifRoot()) {
		text := t.GetText(false)
		switch {
		case strings.Contains(text, "┌"), strings.Contains(text, "╔"):
			m.graph = t
		case strings.Contains(text, "Toggle evidence"):
			m.help = t
		case net.Info() != "" && strings.Contains(text, net.Info()):
			m.info = t
		}
	}
	for _, t := range tview.VerifTables(a.VerifRoot()) {
		m.table = t
	}
	vh.Assert(m.graph != nil, "there is a graph")
	vh.Assert(m.help != nil, "there is a help page")
	vh.Assert(m.table != nil, "there is a table page")
	return m
}

// canvas is the text of the graph and its colours; names without square brackets.
func (m *appModel) canvas() ([][]rune, [][]tui.Color) {
	var out [][]rune
	var colors [][]tui.Color
	c := tui.White
	for _, l := range strings.Split(m.graph.GetText(false), "\n") {
		var rs []rune
		var cs []tui.Color
		for l != "" {
			p := strings.Index(l, "[")
			if p < 0 {
				p = len(l)
			}
			if p == 0 {
				tag := false
				for k, t := range tui.ColorTags {
					if strings.HasPrefix(l, t) {
						c, tag = tui.Color(k), true
						l = l[len(t):]
						break
					}
				}
				if tag {
					continue
				}
				p = 1
			}
			for _, r := range l[:p] {
				rs = append(rs, r)
				cs = append(cs, c)
			}
			l = l[p:]
		}
		out = append(out, rs)
		colors = append(colors, cs)
	}
	return out, colors
}

// plain is the text of the graph as the widget reads it.
func (m *appModel) plain() [][]rune {
	var out [][]rune
	for _, l := range strings.Split(m.graph.GetText(true), "\n") {
		out = append(out, []rune(l))
	}
	return out
}

// colorOf is the colour of a node.
func colorOf(v bbn.Variable) tui.Color {
	switch {
	case v.Color == "red":
		return tui.Red
	case v.Color == "black":
		return tui.Black
	case v.Color != "":
		vh.Fail("a colour the harness does not know")
	case v.NodeType == ve.UtilityNode:
		return tui.Green
	case v.NodeType == ve.DecisionNode:
		return tui.Blue
	}
	return tui.White
}

// focus is the page the keys go to.
func (m *appModel) focus() string {
	switch p := m.app.GetFocus().(type) {
	case *tview.Table:
		return "table"
	case *tview.TextView:
		if p == m.help {
			return "help"
		}
		if p == m.info || m.info == nil && p.GetText(false) == "" {
			return "info"
		}
		if p == m.graph {
			return "graph"
		}
	}
	return "other"
}

// values are the distributions and utilities for the evidence, from a fresh network.
func (m *appModel) values() map[string][]float64 {
	net, err := bbn.FromYAML([]byte(m.doc))
	noErr(err, "the document is valid")
	nodes := []tui.Node{}
	for _, v := range net.Variables() {
		nodes = append(nodes, tui.NewNode(v))
	}
	_, err = net.SolvePolicies(false)
	noErr(err, "policies")
	res, err := tui.Solve(net, m.ev, nodes, m.ignore)
	noErr(err, "the overview")
	return res
}

// check compares what the user sees with the model.
func (m *appModel) check() {
	vh.Assert(m.app.VerifStopped() == m.ended, "the tool ends when it is asked to")
	if m.ended {
		return
	}
	if m.odd {
		m.checkOn(m.plain(), nil)
		return
	}
	c, cs := m.canvas()
	m.checkOn(c, cs)
}

func (m *appModel) checkOn(c [][]rune, cs [][]tui.Color) {
	// outside of the nodes there are just edges
	for y, l := range c {
		for x, r := range l {
			if r != ' ' && !strings.ContainsRune("│─┌┐└┘v^<>", r) {
				in := false
				for _, n := range m.nodes {
					in = in || n.has(x, y)
				}
				vh.Assert(in, "nothing of a node outside of it")
			}
		}
	}
	vals := m.values()
	for i, n := range m.nodes {
		hidden := false
		for _, o := range m.nodes[i+1:] {
			if n.x < o.x+o.w && o.x < n.x+n.w && n.y < o.y+o.h && o.y < n.y+n.h {
				hidden = true
			}
		}
		if hidden {
			continue
		}
		vh.Assert(n.y+n.h <= len(c), "the node is inside the canvas")
		sub := make([][]rune, n.h)
		for y := range sub {
			vh.Assert(n.x+n.w <= len(c[n.y+y]), "the node is inside the canvas")
			sub[y] = c[n.y+y][n.x : n.x+n.w]
		}
		b := tui.NewBounds(n.x, n.y, n.w, n.h)
		v := n.v
		v.Position = [2]int{n.x, n.y}
		colors := make([][]tui.Color, n.h)
		for y := range colors {
			colors[y] = make([]tui.Color, n.w)
			if cs == nil {
				continue
			}
			col := cs[n.y+y][n.x : n.x+n.w]
			for x := range col {
				vh.Assert(col[x] == colorOf(v), "the colour of the node")
			}
		}
		bx := frame(v, &b, sub, colors, i == m.sel)
		ps := vals[v.Name]
		if v.NodeType == ve.UtilityNode {
			for k, u := range ps {
				bx.utility(k, u)
			}
			continue
		}
		_, has := m.ev[v.Name]
		for k, p := range ps {
			mark := ' '
			if i == m.sel && k == m.state {
				mark = '['
			} else if has {
				mark = '+'
			}
			bx.line(k, p, mark)
		}
	}
}

func (b box) utility(i int, u float64) {
	text := "         ???"
	if !math.IsNaN(u) {
		text = fmt.Sprintf("%12.3f", u)
	}
	r := []rune(text)
	for k := range r {
		vh.Assert(b.runes[i+2][b.lab+4+k] == r[k], "the utility")
	}
}

// toggle is what confirming the selected outcome should do.
func (m *appModel) toggle() {
	v := m.nodes[m.sel].v
	if v.NodeType == ve.UtilityNode {
		return
	}
	o := v.Outcomes[m.state]
	if m.ev[v.Name] == o {
		delete(m.ev, v.Name)
	} else {
		m.ev[v.Name] = o
	}
}

func (m *appModel) outs() int { return len(m.nodes[m.sel].v.Outcomes) }

func (m *appModel) key(k tcell.Key, r rune) {
	m.app.VerifKey(tcell.NewEventKey(k, r, tcell.ModNone))
}

// runeKey presses a character.
func (m *appModel) runeKey(r rune) {
	m.key(tcell.KeyRune, r)
	if m.page != "graph" {
		return
	}
	n := &m.nodes[m.sel]
	switch r {
	case ' ':
		m.state = (m.state + 1) % m.outs()
	case 'h':
		m.page = "help"
	case 'i':
		m.page = "info"
	case 't':
		m.page = "table"
	case 'p':
		m.ignore = !m.ignore
	case 'w':
		if n.y > 0 {
			n.y--
		}
	case 'a':
		if n.x > 0 {
			n.x--
		}
	case 's':
		n.y++
	case 'd':
		n.x++
	default:
		for i := 0; i < m.outs() && i < 9; i++ {
			if r == rune('1'+i) {
				m.state = i
			}
		}
	}
}

// specialKey presses another key.
func (m *appModel) specialKey(k tcell.Key) {
	m.key(k, 0)
	if k == tcell.KeyCtrlC {
		m.ended = true
		return
	}
	if m.page != "graph" {
		if k == tcell.KeyEsc || k == tcell.KeyEnter {
			m.page = "graph"
		}
		return
	}
	switch k {
	case tcell.KeyEsc:
		m.ended = true
	case tcell.KeyTab:
		m.sel, m.state = (m.sel+1)%len(m.nodes), 0
	case tcell.KeyBacktab:
		m.sel, m.state = (m.sel+len(m.nodes)-1)%len(m.nodes), 0
	case tcell.KeyEnter:
		m.toggle()
	}
}

// click presses and releases a button in the inner part of the graph.
func (m *appModel) click(x, y int, button tcell.ButtonMask) {
	m.app.VerifMouse(tcell.NewEventMouse(x, y, button, tcell.ModNone), true)
	m.app.VerifMouse(tcell.NewEventMouse(x, y, tcell.ButtonNone, tcell.ModNone), true)
	if m.page != "graph" {
		m.page = "graph"
		return
	}
	bx, by, _, _ := m.graph.GetInnerRect()
	row, col := m.graph.GetScrollOffset()
	cx, cy := x-bx+col, y-by+row
	// the node drawn last is on top
	for i := len(m.nodes) - 1; i >= 0; i-- {
		n := m.nodes[i]
		if cx < n.x || cx >= n.x+n.w || cy < n.y || cy >= n.y+n.h {
			continue
		}
		if i != m.sel {
			m.sel, m.state = i, 0
		}
		if button == tcell.ButtonSecondary {
			m.page = "table"
			return
		}
		for k := range n.v.Outcomes {
			if cy == n.y+2+k {
				m.state = k
				m.toggle()
			}
		}
		return
	}
}

// event is any key or any click on the graph.
func (m *appModel) event() {
	switch vh.Choose("event", 3) {
	case 0:
		m.runeKey(vh.Rune("rune", ' ', 0x10ffff))
	case 1:
		k := vh.Int("key", 0, 400)
		vh.Assume(k != int(tcell.KeyRune))
		m.specialKey(tcell.Key(k))
	case 2:
		x, y, w, h := m.graph.GetInnerRect()
		b := tcell.ButtonPrimary
		if vh.Choose("button", 2) == 1 {
			b = tcell.ButtonSecondary
		}
		m.click(vh.Int("x", x, x+w-1), vh.Int("y", y, y+h-1), b)
	}
	m.check()
	if !m.ended {
		vh.Assert(m.focus() == m.page, "the keys go to the page shown")
	}
}

// app starts the tool and leaves the page with information.
func app(doc string, ev map[string]string, f func(m *appModel)) {
	var given map[string]string
	if ev != nil {
		given = map[string]string{}
	}
	for k, v := range ev {
		given[k] = v
	}
	err := runApp(doc, given, func(a *tview.Application) {
		m := newModel(a, doc, ev)
		m.check()
		if m.page == "info" {
			m.specialKey(tcell.KeyEsc)
		}
		f(m)
		vh.Reach("end")
	})
	vh.Assert(err == nil, "the tool runs")
}

// step: any event in any state.
func step(doc string) {
	net, err := bbn.FromYAML([]byte(doc))
	noErr(err, "the document is valid")
	vars := net.Variables()
	sel := vh.Choose("node", len(vars))
	others := vh.Choose("others", 2)
	ev := map[string]string{}
	for i, v := range vars {
		if v.NodeType == ve.UtilityNode {
			continue
		}
		if i == sel || vh.Deep() {
			if k := vh.Choose("evidence", len(v.Outcomes)+1); k > 0 {
				ev[v.Name] = v.Outcomes[k-1]
			}
		} else if others == 1 {
			ev[v.Name] = v.Outcomes[len(v.Outcomes)-1]
		}
	}
	policies := others
	if vh.Deep() {
		policies = vh.Choose("policies", 2)
	}
	app(doc, ev, func(m *appModel) {
		for i := sel; i > 0; i-- {
			m.specialKey(tcell.KeyTab)
		}
		for i := vh.Choose("state", m.outs()); i > 0; i-- {
			m.runeKey(' ')
		}
		if policies == 1 {
			m.runeKey('p')
		}
		m.check()
		m.event()
	})
}

// AppStepChain and the others: any event in any state.
func AppStepChain()      { step(chainDoc) }
func AppStepDecision()   { step(decisionDoc) }
func AppStepWeighted()   { step(weightedDoc) }
func AppStepImpossible() { step(impossibleDoc) }

// AppTwo: any two events one after another.
func AppTwo() {
	doc := []string{chainDoc, decisionDoc, overlapDoc}[vh.Choose("doc", 3)]
	app(doc, nil, func(m *appModel) {
		for i := 0; i < 2 && !m.ended; i++ {
			m.event()
		}
	})
}

// AppOverlap: any event where nodes lie upon each other.
func AppOverlap() {
	app(overlapDoc, nil, func(m *appModel) {
		for i := vh.Choose("node", len(m.nodes)); i > 0; i-- {
			m.specialKey(tcell.KeyTab)
		}
		m.event()
	})
}

// AppScrolled: clicks where the graph is scrolled.
func AppScrolled() {
	app(decisionDoc, nil, func(m *appModel) {
		row, col := vh.Int("row", 0, 30), vh.Int("col", 0, 80)
		m.graph.ScrollTo(row, col)
		m.event()
	})
}

// AppDialog: a page is opened, any event follows.
func AppDialog() {
	doc := []string{chainDoc, decisionDoc, weightedDoc}[vh.Choose("doc", 3)]
	app(doc, nil, func(m *appModel) {
		for i := vh.Choose("node", len(m.nodes)); i > 0; i-- {
			m.specialKey(tcell.KeyTab)
		}
		m.runeKey(rune("hit"[vh.Choose("page", 3)]))
		vh.Assert(m.focus() == m.page, "the keys go to the page shown")
		switch vh.Choose("event", 3) {
		case 0:
			m.runeKey(vh.Rune("rune", ' ', 0x10ffff))
		case 1:
			k := vh.Int("key", 0, 400)
			vh.Assume(k != int(tcell.KeyRune))
			m.specialKey(tcell.Key(k))
		case 2:
			// inside the page
			x, y, w, h := m.app.GetFocus().GetRect()
			b := tcell.ButtonPrimary
			if vh.Choose("button", 2) == 1 {
				b = tcell.ButtonSecondary
			}
			m.click(vh.Int("x", x, x+w-1), vh.Int("y", y, y+h-1), b)
		}
		m.check()
		if m.ended {
			return
		}
		vh.Assert(m.focus() == m.page, "the keys go to the page shown")
		if m.page != "graph" {
			m.specialKey([]tcell.Key{tcell.KeyEsc, tcell.KeyEnter}[vh.Choose("close", 2)])
			vh.Assert(m.focus() == m.page, "the keys go to the page shown")
		}
		m.runeKey(' ')
		m.specialKey(tcell.KeyTab)
		m.check()
	})
}

// AppAnywhere: two mouse events and keys anywhere, with any buttons, also double clicks and drags, do not crash the
// tool, and afterwards one node is selected.
func AppAnywhere() {
	doc := chainDoc
	if vh.Deep() && vh.Choose("doc", 2) == 1 {
		doc = weightedDoc
	}
	app(doc, nil, func(m *appModel) {
		if k := vh.Choose("page", 4); k > 0 {
			m.runeKey(rune("hit"[k-1]))
		}
		x, y := vh.Int("x", 0, 99), vh.Int("y", 0, 39)
		buttons := tcell.ButtonMask(vh.Int("buttons", 0, 7))
		kind := vh.Choose("kind", 4)
		if kind == 3 {
			buttons = []tcell.ButtonMask{tcell.WheelUp, tcell.WheelDown, tcell.WheelLeft, tcell.WheelRight}[vh.Choose("wheel", 4)]
		}
		m.app.VerifMouse(tcell.NewEventMouse(x, y, buttons, tcell.ModNone), true)
		x2, y2 := x, y
		if kind == 1 {
			// a drag
			x2, y2 = vh.Int("x2", 0, 99), vh.Int("y2", 0, 39)
		}
		m.app.VerifMouse(tcell.NewEventMouse(x2, y2, tcell.ButtonNone, tcell.ModNone), false)
		if kind == 2 {
			// a double click
			m.app.VerifMouse(tcell.NewEventMouse(x, y, tcell.ButtonPrimary, tcell.ModNone), false)
			m.app.VerifMouse(tcell.NewEventMouse(x, y, tcell.ButtonNone, tcell.ModNone), false)
		}
		m.oneSelected()
		m.app.VerifKey(tcell.NewEventKey(tcell.KeyEnter, 0, tcell.ModNone))
		m.oneSelected()
	})
}

// oneSelected: exactly one node has the double frame.
func (m *appModel) oneSelected() {
	vh.Assert(!m.app.VerifStopped(), "the tool goes on")
	vh.Assert(strings.Count(m.graph.GetText(false), "╔") == 1, "one node is selected")
}

// AppMove: moves of nodes, and the document saved afterwards.
func AppMove() {
	doc := []string{chainDoc, decisionDoc, weightedDoc}[vh.Choose("doc", 3)]
	app(doc, nil, func(m *appModel) {
		for i := vh.Choose("node", len(m.nodes)); i > 0; i-- {
			m.specialKey(tcell.KeyTab)
		}
		n := 3
		if vh.Deep() {
			n = 5
		}
		for i := 0; i < n; i++ {
			m.runeKey(rune("wasd"[vh.Choose("move", 4)]))
		}
		m.check()
		m.specialKey(tcell.KeyCtrlS)
		m.check()
		text, ok := vh.ReadFile("net-save.yml")
		vh.Assert(ok, "the network is saved")
		saved, err := bbn.FromYAML([]byte(text))
		noErr(err, "the saved network is valid")
		old, err := bbn.FromYAML([]byte(doc))
		noErr(err, "the document is valid")
		a, b := saved.Variables(), old.Variables()
		vh.Assert(len(a) == len(b), "the variables are saved")
		for i, v := range a {
			vh.Assert(v.Position == [2]int{m.nodes[i].x, m.nodes[i].y}, "the position is saved")
			vh.Assert(v.Name == b[i].Name && v.NodeType == b[i].NodeType && v.Color == b[i].Color, "the variable is saved")
			vh.Assert(strings.Join(v.Outcomes, "|") == strings.Join(b[i].Outcomes, "|"), "the outcomes are saved")
			vh.Assert(strings.Join(v.Factor.Given, "|") == strings.Join(b[i].Factor.Given, "|"), "the parents are saved")
			if v.NodeType == ve.DecisionNode {
				continue
			}
			vh.Assert(len(v.Factor.Table) == len(b[i].Factor.Table), "the table is saved")
			for k, x := range v.Factor.Table {
				vh.EqF(x, b[i].Factor.Table[k], "the table is saved")
			}
		}
	})
}

// AppAfter: evidence is set, something that should not matter for it is done, and any event follows.
func AppAfter() {
	doc := []string{chainDoc, decisionDoc, weightedDoc}[vh.Choose("doc", 3)]
	app(doc, nil, func(m *appModel) {
		for i := 1 + vh.Choose("node", 2); i > 0; i-- {
			m.specialKey(tcell.KeyTab)
		}
		m.runeKey(' ')
		m.specialKey(tcell.KeyEnter)
		m.check()
		switch vh.Choose("between", 8) {
		case 0:
			m.specialKey(tcell.KeyCtrlS)
		case 1:
			m.runeKey('h')
			m.specialKey(tcell.KeyEsc)
		case 2:
			m.runeKey('i')
			m.specialKey(tcell.KeyEnter)
		case 3:
			m.runeKey('t')
			m.specialKey(tcell.KeyEsc)
		case 4:
			m.runeKey('p')
			m.runeKey('p')
		case 5:
			m.runeKey('d')
			m.runeKey('s')
		case 6:
			m.specialKey(tcell.KeyBacktab)
			m.specialKey(tcell.KeyTab)
		case 7:
			m.runeKey('0')
			m.specialKey(tcell.KeyDelete)
		}
		m.check()
		switch vh.Choose("event", 6) {
		case 0:
			m.specialKey(tcell.KeyTab)
		case 1:
			m.specialKey(tcell.KeyEnter)
		case 2:
			m.runeKey(' ')
			m.specialKey(tcell.KeyEnter)
		case 3:
			m.runeKey('p')
		case 4:
			m.runeKey('a')
		case 5:
			x, y, w, h := m.graph.GetInnerRect()
			m.click(vh.Int("x", x, x+w-1), vh.Int("y", y, y+h-1), tcell.ButtonPrimary)
		}
		m.check()
		vh.Assert(m.focus() == m.page, "the keys go to the page shown")
	})
}
