package h

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	for k, f := range map[string]func(){"NodeBars": NodeBars, "NodeLabels": NodeLabels, "NodeUtility": NodeUtility, "NodeClick": NodeClick, "NodeUndefined": NodeUndefined, "NodeColors": NodeColors, "NodeUtilityWide": NodeUtilityWide} {
		All[k] = f
	}
}

// ---- single nodes

const barCells = 10

var partials = []rune{'▏', '▎', '▍', '▌', '▋', '▊', '▉'}

// box is a rendered node with what is expected of its frame.
type box struct {
	v     bbn.Variable
	runes [][]rune
	w, h  int
	lab   int // width of the labels
}

func runeLen(s string) int { return len([]rune(s)) }

// frame checks the size, the border and the title, and returns the box.
func frame(v bbn.Variable, b *tui.Bounds, runes [][]rune, colors [][]tui.Color, selected bool) box {
	lines := len(v.Outcomes)
	extra := 0
	if v.NodeType == ve.UtilityNode {
		extra = 1
	}
	vh.Assert(b.X == v.Position[0], "left side of the node")
	vh.Assert(b.Y == v.Position[1], "upper side of the node")
	vh.Assert(len(runes) == b.H, "as many lines as the node is high")
	vh.Assert(len(colors) == b.H, "as many coloured lines as the node is high")
	for i := range runes {
		vh.Assert(len(runes[i]) == b.W, "lines as long as the node is wide")
		vh.Assert(len(colors[i]) == b.W, "coloured lines as long as the node is wide")
	}
	vh.Assert(b.H >= lines+extra+3, "a line for each outcome")
	k := 0
	if selected {
		k = 1
	}
	for x := 1; x < b.W-1; x++ {
		vh.Assert(runes[0][x] == []rune{'─', '═'}[k], "upper border")
		vh.Assert(runes[b.H-1][x] == []rune{'─', '═'}[k], "lower border")
	}
	for y := 1; y < b.H-1; y++ {
		vh.Assert(runes[y][0] == []rune{'│', '║'}[k], "left border")
		vh.Assert(runes[y][b.W-1] == []rune{'│', '║'}[k], "right border")
	}
	vh.Assert(runes[0][0] == []rune{'┌', '╔'}[k], "corner")
	vh.Assert(runes[0][b.W-1] == []rune{'┐', '╗'}[k], "corner")
	vh.Assert(runes[b.H-1][0] == []rune{'└', '╚'}[k], "corner")
	vh.Assert(runes[b.H-1][b.W-1] == []rune{'┘', '╝'}[k], "corner")
	lab := 0
	for _, o := range v.Outcomes {
		if l := runeLen(o); l > lab {
			lab = l
		}
	}
	if lab > 16 {
		lab = 16
	}
	// the title as far as there is space
	title := []rune(v.Name)
	for i := 0; i < len(title) && i < 48 && i < b.W-5; i++ {
		vh.Assert(runes[1][2+i] == title[i], "title")
	}
	for y, o := range v.Outcomes {
		l := []rune(o)
		for i := 0; i < lab; i++ {
			want := ' '
			if i < len(l) {
				want = l[i]
			}
			vh.Assert(runes[y+2][2+i] == want, "label of the outcome")
		}
		vh.Assert(runes[y+2][2+lab] == ' ', "space after the label")
	}
	return box{v, runes, b.W, b.H, lab}
}

// line checks the bar, the percentage and the marks of one outcome.
func (b box) line(y int, p float64, mark rune) {
	l := b.runes[y+2]
	at := b.lab + 3
	text := "    ???"
	if math.IsNaN(p) {
		for i := 0; i < barCells; i++ {
			vh.Assert(l[at+i] == '░', "empty bar of an undefined value")
		}
	} else {
		text = fmt.Sprintf("%7.3f", p*100)
		// full cells, at most one partial cell, empty cells
		cells := 0.0
		over := false
		for i := 0; i < barCells; i++ {
			switch c := l[at+i]; c {
			case '█':
				vh.Assert(!over, "full cells come first")
				cells++
			case '░':
				over = true
			default:
				k := -1
				for j, r := range partials {
					if c == r {
						k = j
					}
				}
				vh.Assert(k >= 0, "a cell of a bar")
				vh.Assert(!over, "one partial cell after the full ones")
				cells += float64(k+1) / 8
				over = true
			}
		}
		vh.LeF(cells-p*10, 0.15, "the bar is not longer than the value by more than its resolution")
		vh.LeF(p*10-cells, 0.15, "the bar is not shorter than the value by more than its resolution")
	}
	vh.Assert(l[at+barCells] == ' ', "space after the bar")
	r := []rune(text)
	for i := range r {
		vh.Assert(l[at+barCells+1+i] == r[i], "the percentage of the outcome")
	}
	for x := at + barCells + 1 + len(r); x < b.w-2; x++ {
		vh.Assert(l[x] == ' ', "nothing after the percentage")
	}
	other := mark
	if mark == '[' {
		other = ']'
	}
	vh.Assert(l[1] == mark, "mark before the line")
	vh.Assert(l[b.w-2] == other, "mark after the line")
}

// anyProb is a number between 0 and 1.
func anyProb(label string) float64 {
	p := vh.NonNeg(label)
	vh.Assume(p <= 1)
	return p
}

// before renders the node in another state first.
func before(n tui.Node, outs, how int) {
	ps := make([]float64, outs)
	switch how {
	case 0:
		return
	case 1:
		ps[0] = 1
		n.Render(ps, true, 0, false)
	case 2:
		for i := range ps {
			ps[i] = 0.96875
		}
		n.Render(ps, false, 0, true)
	case 3:
		for i := range ps {
			ps[i] = math.NaN()
		}
		n.Render(ps, true, outs-1, true)
	}
}

// NodeBars: one probability is any number, whatever was shown before.
func NodeBars() {
	outs := 1 + vh.Choose("outcomes", deep(3, 4))
	at := vh.Choose("free", outs)
	how := vh.Choose("before", 4)
	mode := (how + vh.Choose("mode", deep(2, 4))) % 4
	v := bbn.Variable{Name: "my node", NodeType: []ve.NodeType{ve.ChanceNode, ve.DecisionNode}[mode%2], Outcomes: lab("out", outs), Position: [2]int{vh.Int("x", 0, far), vh.Int("y", 0, far)}}
	n := tui.NewNode(v)
	before(n, outs, how)
	ps := make([]float64, outs)
	for i := range ps {
		ps[i] = float64(i) / 4
	}
	ps[at] = anyProb("p")
	keep := append([]float64{}, ps...)
	selected, evidence := mode >= 2, mode%2 == 1
	state := 0
	if outs > 1 && selected {
		state = vh.Choose("state", 2) * (outs - 1)
	}
	runes, colors := n.Render(ps, selected, state, evidence)
	b := frame(v, n.Bounds(), runes, colors, selected)
	for i := range keep {
		mark := ' '
		if selected && state == i {
			mark = '['
		} else if evidence {
			mark = '+'
		}
		b.line(i, keep[i], mark)
	}
	vh.Reach("end")
}

// NodeUndefined: placeholders for undefined values.
func NodeUndefined() {
	outs := 1 + vh.Choose("outcomes", 3)
	v := bbn.Variable{Name: "my node", Outcomes: lab("out", outs)}
	n := tui.NewNode(v)
	before(n, outs, vh.Choose("before", 4))
	ps := make([]float64, outs)
	for i := range ps {
		ps[i] = math.NaN()
	}
	runes, colors := n.Render(ps, false, 0, false)
	b := frame(v, n.Bounds(), runes, colors, false)
	for i := range ps {
		b.line(i, ps[i], ' ')
	}
	vh.Reach("end")
}

// NodeLabels: names and labels of any length, and their colours.
func NodeLabels() {
	names := []string{"", "a", "a name of some length which is longer", "äöü €", "0123456789012345678901234567890123456789012345678901234567890123456789"}
	labels := [][]string{{"yes"}, {"", "x"}, {"0123456789abcdef", "y"}, {"0123456789abcdefg", "0123456789abcdefghijkl"}, {"größer", "→", "a b"}, {" a", "b ", "  "}}
	v := bbn.Variable{Name: names[vh.Choose("name", len(names))], Outcomes: labels[vh.Choose("labels", len(labels))]}
	v.NodeType = []ve.NodeType{ve.ChanceNode, ve.DecisionNode}[vh.Choose("type", 2)]
	v.Color = []string{"", "red", "white", "black", "aqua"}[vh.Choose("color", 5)]
	n := tui.NewNode(v)
	p := make([]float64, len(v.Outcomes))
	p[0] = 1
	runes, colors := n.Render(p, false, 0, false)
	b := frame(v, n.Bounds(), runes, colors, false)
	for i := range p {
		b.line(i, p[i], ' ')
	}
	want := map[string]tui.Color{"red": tui.Red, "white": tui.White, "black": tui.Black, "aqua": tui.Aqua}[v.Color]
	if v.Color == "" {
		want = tui.White
		if v.NodeType == ve.DecisionNode {
			want = tui.Blue
		}
	}
	for _, l := range colors {
		for _, c := range l {
			vh.Assert(c == want, "colour of the node")
		}
	}
	vh.Assert(*n.Bounds() == tui.NewBounds(0, 0, len(runes[0]), len(runes)), "size of the node")
	nv := n.Node()
	vh.Assert(nv.Name == v.Name, "variable of the node")
	vh.Reach("end")
}

// NodeUtility: utilities and the total, whatever was shown before.
func NodeUtility() {
	outs := 1 + vh.Choose("outcomes", 3)
	labels := lab("util", outs)
	if vh.Choose("long", 2) == 1 {
		labels[outs-1] = "a label that does not fit"
	}
	v := bbn.Variable{Name: "my node", NodeType: ve.UtilityNode, Outcomes: labels}
	n := tui.NewNode(v)
	us := make([]float64, outs+1)
	switch vh.Choose("before", 4) {
	case 1:
		for i := range us {
			us[i] = -1234567.5
		}
		n.Render(us, true, 0, false)
	case 2:
		for i := range us {
			us[i] = math.NaN()
		}
		n.Render(us, true, 0, true)
	case 3:
		for i := range us {
			us[i] = -123456789012345.5
		}
		n.Render(us, false, 0, false)
	}
	at := vh.Choose("free", outs+1)
	for i := range us {
		us[i] = 2.5 * float64(i)
	}
	if vh.Choose("undefined", 2) == 1 {
		us[at] = math.NaN()
	} else {
		us[at] = vh.Real("u")
		vh.Assume(us[at] < 99999999)
		vh.Assume(us[at] > -9999999)
	}
	selected := vh.Choose("selected", 2) == 1
	runes, colors := n.Render(us, selected, 0, false)
	b := frame(v, n.Bounds(), runes, colors, selected)
	for i, u := range us {
		text := "         ???"
		if !math.IsNaN(u) {
			text = fmt.Sprintf("%12.3f", u)
		}
		l := runes[i+2]
		r := []rune(text)
		for k := range r {
			vh.Assert(l[b.lab+4+k] == r[k], "the utility")
		}
		for x := b.lab + 4 + len(r); x < b.w-1; x++ {
			vh.Assert(l[x] == ' ', "nothing after the utility")
		}
	}
	total := []rune("total")
	for i := 0; i < len(total) && i < b.lab; i++ {
		vh.Assert(runes[outs+2][2+i] == total[i], "label of the total")
	}
	vh.Reach("end")
}

// NodeClick: the outcome at a point is the one in that line.
func NodeClick() {
	outs := 1 + vh.Choose("outcomes", deep(4, 6))
	v := bbn.Variable{Name: "my node", NodeType: []ve.NodeType{ve.ChanceNode, ve.DecisionNode, ve.UtilityNode}[vh.Choose("type", 3)], Outcomes: lab("out", outs), Position: [2]int{vh.Int("x", 0, far), vh.Int("y", 0, far)}}
	n := tui.NewNode(v)
	x, y := vh.Int("px", 0, far), vh.Int("py", 0, far)
	k, ok := n.SelectedOutcome(x, y)
	b := n.Bounds()
	inside := vh.And(vh.And(x >= b.X, x < b.X+b.W), vh.And(y >= b.Y, y < b.Y+b.H))
	row := y - b.Y - 2
	want := vh.And(inside, vh.And(row >= 0, row < outs))
	vh.Assert(ok == want, "an outcome exactly in the lines of outcomes")
	vh.Assert(vh.Or(!ok, k == row), "the outcome of the line")
	vh.Reach("end")
}

var colorNames = []string{"", "black", "maroon", "green", "olive", "navy", "purple", "teal", "silver", "gray", "red", "lime", "yellow", "blue", "fuchsia", "aqua", "white"}

// NodeColors: every colour has its tag.
func NodeColors() {
	v := bbn.Variable{Name: "a", Outcomes: []string{"yes", "no"}}
	v.NodeType = []ve.NodeType{ve.ChanceNode, ve.DecisionNode, ve.UtilityNode}[vh.Choose("type", 3)]
	v.Color = colorNames[vh.Choose("color", len(colorNames))]
	n := tui.NewNode(v)
	_, colors := n.Render([]float64{0.25, 0.75}, false, 0, false)
	name := v.Color
	if name == "" {
		name = map[ve.NodeType]string{ve.ChanceNode: "white", ve.DecisionNode: "blue", ve.UtilityNode: "green"}[v.NodeType]
	}
	for _, l := range colors {
		for _, c := range l {
			tag := tui.ColorTags[c]
			vh.Assert(tag == "["+name+"]" || name == "white" && tag == "[-]", "the colour of the node")
		}
	}
	vh.Reach("end")
}

// NodeUtilityWide: utilities of any size stay inside the node and are shown with four digits at least.
func NodeUtilityWide() {
	vals := []float64{123456789, -12345678.9, 99999999.9996, -9999999.9996, 1e9, -1e9, 123456789012, -98765432109, 1e15, -1e15, 1.5e100, -2.5e-200, -1.5e300, 99999999, -9999999}
	u := vals[vh.Choose("value", len(vals))]
	outs := 1 + vh.Choose("outcomes", 2)
	v := bbn.Variable{Name: "my node", NodeType: ve.UtilityNode, Outcomes: lab("u", outs)}
	n := tui.NewNode(v)
	us := make([]float64, outs+1)
	for i := range us {
		us[i] = vals[(i+vh.Choose("before", 2))%len(vals)]
	}
	n.Render(us, false, 0, false)
	at := vh.Choose("place", outs+1)
	for i := range us {
		us[i] = 1
	}
	us[at] = u
	runes, colors := n.Render(us, false, 0, false)
	b := frame(v, n.Bounds(), runes, colors, false)
	for i, x := range us {
		text := strings.TrimSpace(string(runes[i+2][b.lab+3 : b.w-1]))
		got, err := strconv.ParseFloat(text, 64)
		vh.Assert(err == nil, "a number is shown")
		vh.Assert(math.Abs(got-x) <= 0.001+math.Abs(x)/1000, "the utility is shown")
	}
	vh.Reach("end")
}
