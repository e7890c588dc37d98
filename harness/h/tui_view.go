package h

import (
	"fmt"
	"math"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	for k, f := range map[string]func(){"RectContains": RectContains, "RectExtend": RectExtend, "RectCentroid": RectCentroid,
		"TableView": TableView, "TableViewUtility": TableViewUtility, "TableViewLarge": TableViewLarge, "TableViewNames": TableViewNames, "TableShown": TableShown} {
		All[k] = f
	}
}

// ---- rectangles

const far = 1 << 40

func anyRect(label string, minSize int) tui.Bounds {
	return tui.NewBounds(vh.Int(label+"x", -far, far), vh.Int(label+"y", -far, far), vh.Int(label+"w", minSize, far), vh.Int(label+"h", minSize, far))
}

// RectContains: a point is inside exactly if it lies in the half-open extent.
func RectContains() {
	b := anyRect("b", 0)
	x, y := vh.Int("px", -far, far), vh.Int("py", -far, far)
	old := b
	got := b.Contains(x, y)
	want := vh.And(vh.And(b.X <= x, x-b.X < b.W), vh.And(b.Y <= y, y-b.Y < b.H))
	vh.Assert(got == want, "contained exactly in the half-open extent")
	vh.Assert(vh.And(vh.And(b.X == old.X, b.Y == old.Y), vh.And(b.W == old.W, b.H == old.H)), "the rectangle stays as it is")
	vh.Reach("end")
}

func minI(a, b int) int { return vh.Ite(a < b, a, b) }
func maxI(a, b int) int { return vh.Ite(a > b, a, b) }

// RectExtend: the smallest rectangle covering both.
func RectExtend() {
	b, o := anyRect("b", 1), anyRect("o", 1)
	oldB, oldO := b, o
	b.Extend(&o)
	vh.Assert(b.X == minI(oldB.X, oldO.X), "left side")
	vh.Assert(b.Y == minI(oldB.Y, oldO.Y), "upper side")
	vh.Assert(b.X+b.W == maxI(oldB.X+oldB.W, oldO.X+oldO.W), "right side")
	vh.Assert(b.Y+b.H == maxI(oldB.Y+oldB.H, oldO.Y+oldO.H), "lower side")
	vh.Assert(vh.And(vh.And(o.X == oldO.X, o.Y == oldO.Y), vh.And(o.W == oldO.W, o.H == oldO.H)), "the other rectangle stays as it is")
	x, y := vh.Int("px", -far, far), vh.Int("py", -far, far)
	either := vh.Or(oldB.Contains(x, y), oldO.Contains(x, y))
	vh.Assert(vh.Or(!either, b.Contains(x, y)), "points of both are covered")
	vh.Reach("end")
}

// RectCentroid: inside, and in the middle up to one cell.
func RectCentroid() {
	b := anyRect("b", 1)
	x, y := b.Centroid()
	vh.Assert(b.Contains(x, y), "the centroid lies inside")
	left, right := x-b.X, b.X+b.W-1-x
	up, down := y-b.Y, b.Y+b.H-1-y
	vh.Assert(vh.And(left-right <= 1, right-left <= 1), "in the middle of the width")
	vh.Assert(vh.And(up-down <= 1, down-up <= 1), "in the middle of the height")
	vh.Reach("end")
}

// ---- table view

// viewNet builds nodes: parents with the given numbers of outcomes and one node of the type that depends on them, the
// variables in any order; returns the nodes, the index of the last one and the index by name.
func viewNodes(order int, t ve.NodeType, outs int, pars []int, table []float64) ([]tui.Node, int, map[string]int) {
	n := len(pars) + 1
	vars := make([]bbn.Variable, n)
	var given []string
	for i, p := range pars {
		vars[i] = bbn.Variable{Name: fmt.Sprintf("par%d", i), NodeType: ve.ChanceNode, Outcomes: lab(fmt.Sprintf("p%d_", i), p), Factor: &bbn.Factor{For: fmt.Sprintf("par%d", i), Table: posConst(p)}}
		if i == 1 {
			vars[i].NodeType = ve.DecisionNode
		}
		given = append(given, vars[i].Name)
	}
	vars[n-1] = bbn.Variable{Name: "node", NodeType: t, Outcomes: lab("o", outs), Factor: &bbn.Factor{For: "node", Given: given, Table: table}}
	perm := permSome(n, order)
	nodes := make([]tui.Node, n)
	byName := map[string]int{}
	idx := 0
	for i, p := range perm {
		nodes[i] = tui.NewNode(vars[p])
		byName[vars[p].Name] = i
		if p == n-1 {
			idx = i
		}
	}
	return nodes, idx, byName
}

func lab(prefix string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("%s%d", prefix, i)
	}
	return out
}

func posConst(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = 1
	}
	return out
}

// TableView: header, parent outcomes of each line, and percentages, for any table.
func TableView() {
	shapes := [][]int{{}, {2}, {3}, {2, 3}, {3, 2}, {2, 2, 2}, {2, 3, 2}, {1, 2}, {2, 1, 3}}
	pars := shapes[vh.Choose("parents", len(shapes))]
	outs := 1 + vh.Choose("outcomes", deep(3, 4))
	v := vh.Choose("variant", 3)
	t := []ve.NodeType{ve.ChanceNode, ve.DecisionNode, ve.ChanceNode}[v]
	rows := size(pars)
	table := make([]float64, rows*outs)
	free := 0
	if rows > 1 {
		free = []int{0, rows / 2, rows - 1}[vh.Choose("free", 3)]
	}
	pos := 0
	if outs > 1 {
		pos = (outs - 1) * vh.Choose("positive", 2)
	}
	all := deep(0, 1) == 1
	for r := 0; r < rows; r++ {
		sum := 0.0
		for i := 0; i < outs; i++ {
			if r == free && i != pos {
				table[r*outs+i] = vh.NonNeg("p")
			} else if r != free && !all {
				table[r*outs+i] = float64(1 + (7*r+3*i)%16)
			} else {
				table[r*outs+i] = vh.Pos("p")
			}
			sum += table[r*outs+i]
		}
		for i := 0; i < outs && outs > 1 && r != free && all; i++ {
			// the number of digits matters in one line only
			vh.Assume(table[r*outs+i] > 0.125*sum)
		}
	}
	keep := append([]float64{}, table...)
	nodes, idx, byName := viewNodes(v, t, outs, pars, table)
	tab := tui.NewTable(nodes, idx, byName)
	vh.Assert(tab.GetRowCount() == rows+1, "one line per combination and a header")
	vh.Assert(tab.GetColumnCount() == len(pars)+outs, "one column per parent and outcome")
	for i := range pars {
		vh.Assert(tab.GetCell(0, i).Text == fmt.Sprintf("par%d", i), "header of a parent")
	}
	for i := 0; i < outs; i++ {
		vh.Assert(tab.GetCell(0, len(pars)+i).Text == fmt.Sprintf("o%d", i), "header of an outcome")
	}
	at := make([]int, len(pars))
	// the lines are asked for last to first, as a view may do
	for r := rows - 1; r >= 0; r-- {
		k := r
		for i := len(pars) - 1; i >= 0; i-- {
			at[i] = k % pars[i]
			k /= pars[i]
		}
		for i := range pars {
			vh.Assert(tab.GetCell(r+1, i).Text == fmt.Sprintf("p%d_%d", i, at[i]), "outcome of the parent in this line")
		}
		sum := 0.0
		for i := 0; i < outs; i++ {
			sum += keep[r*outs+i]
		}
		for i := 0; i < outs; i++ {
			vh.Assert(tab.GetCell(r+1, len(pars)+i).Text == fmt.Sprintf("%7.3f%%", 100*keep[r*outs+i]/sum), "percentage of the outcome")
		}
	}
	vh.Reach("end")
}

// TableViewUtility: utilities are shown as they are.
func TableViewUtility() {
	shapes := [][]int{{2}, {3}, {2, 3}, {3, 2}, {2, 2, 2}, {2, 1, 3}}
	pars := shapes[vh.Choose("parents", len(shapes))]
	rows := size(pars)
	table := make([]float64, rows)
	for r := range table {
		table[r] = vh.Real("u")
		if r > 0 {
			// the number of digits matters for one entry only
			vh.Assume(table[r] > 1)
			vh.Assume(table[r] < 9)
		} else {
			vh.Assume(math.Abs(table[0]) < 100000)
		}
	}
	keep := append([]float64{}, table...)
	nodes, idx, byName := viewNodes(vh.Choose("order", 3), ve.UtilityNode, 1, pars, table)
	tab := tui.NewTable(nodes, idx, byName)
	vh.Assert(tab.GetRowCount() == rows+1, "one line per combination and a header")
	vh.Assert(tab.GetColumnCount() == len(pars)+1, "one column per parent and one for the utility")
	for r := 0; r < rows; r++ {
		k := r
		for i := len(pars) - 1; i >= 0; i-- {
			vh.Assert(tab.GetCell(r+1, i).Text == fmt.Sprintf("p%d_%d", i, k%pars[i]), "outcome of the parent in this line")
			k /= pars[i]
		}
		vh.Assert(tab.GetCell(r+1, len(pars)).Text == fmt.Sprintf("%9.3f", keep[r]), "the utility")
	}
	vh.Reach("end")
}

// TableViewLarge: parents with many outcomes, many outcomes, many lines; one line is arbitrary.
func TableViewLarge() {
	shapes := [][]int{{6}, {5, 4}, {3, 5, 7}, {2, 2, 2, 2, 2}, {11, 12}, {300}}
	pars := shapes[vh.Choose("parents", len(shapes))]
	outs := []int{2, 5, 9}[vh.Choose("outcomes", 3)]
	rows := size(pars)
	table := make([]float64, rows*outs)
	for i := range table {
		table[i] = float64(1 + (7*i+i/outs)%16)
	}
	free := []int{0, rows / 2, rows - 1}[vh.Choose("free", 3)]
	// the last values matter for the sum, but do not change the number of digits
	x := vh.Pos("p")
	vh.Assume(x < 4)
	table[free*outs+outs-1] = 4 + x
	for i := 0; i+1 < outs; i++ {
		table[free*outs+i] = 3
	}
	keep := append([]float64{}, table...)
	nodes, idx, byName := viewNodes(vh.Choose("order", 2), ve.ChanceNode, outs, pars, table)
	tab := tui.NewTable(nodes, idx, byName)
	vh.Assert(tab.GetRowCount() == rows+1, "one line per combination and a header")
	vh.Assert(tab.GetColumnCount() == len(pars)+outs, "one column per parent and outcome")
	for i := 0; i < outs; i++ {
		vh.Assert(tab.GetCell(0, len(pars)+i).Text == fmt.Sprintf("o%d", i), "header of an outcome")
	}
	for r := 0; r < rows; r++ {
		k := r
		for i := len(pars) - 1; i >= 0; i-- {
			vh.Assert(tab.GetCell(r+1, i).Text == fmt.Sprintf("p%d_%d", i, k%pars[i]), "outcome of the parent in this line")
			k /= pars[i]
		}
		sum := 0.0
		for i := 0; i < outs; i++ {
			sum += keep[r*outs+i]
		}
		for i := 0; i < outs; i++ {
			vh.Assert(tab.GetCell(r+1, len(pars)+i).Text == fmt.Sprintf("%7.3f%%", 100*keep[r*outs+i]/sum), "percentage of the outcome")
		}
	}
	vh.Reach("end")
}

// TableViewNames: names and labels are shown as they are, wherever they occur.
func TableViewNames() {
	a := oddNames[vh.Choose("name", len(oddNames))]
	b := oddNames[vh.Choose("label", len(oddNames))]
	par := bbn.Variable{Name: a, Outcomes: []string{"no", b}, Factor: &bbn.Factor{For: a, Table: posConst(2)}}
	own := bbn.Variable{Name: "node", Outcomes: []string{b, "x"}, Factor: &bbn.Factor{For: "node", Given: []string{a}, Table: posConst(4)}}
	tab := tui.NewTable([]tui.Node{tui.NewNode(own), tui.NewNode(par)}, 0, map[string]int{"node": 0, a: 1})
	vh.Assert(shown(tab.GetCell(0, 0).Text) == a, "header of the parent")
	vh.Assert(shown(tab.GetCell(0, 1).Text) == b, "header of the outcome")
	vh.Assert(shown(tab.GetCell(0, 2).Text) == "x", "header of the outcome")
	vh.Assert(shown(tab.GetCell(1, 0).Text) == "no", "outcome of the parent")
	vh.Assert(shown(tab.GetCell(2, 0).Text) == b, "outcome of the parent")
	vh.Reach("end")
}

// TableShown: the table page shows the table of the selected node, for decisions the policy.
func TableShown() {
	doc := []string{chainDoc, decisionDoc, weightedDoc}[vh.Choose("doc", 3)]
	net, err := bbn.FromYAML([]byte(doc))
	noErr(err, "the document is valid")
	pol, err := net.SolvePolicies(false)
	noErr(err, "policies")
	vars := net.Variables()
	app(doc, nil, func(m *appModel) {
		k := vh.Choose("node", len(vars))
		if vh.Choose("by", 2) == 0 {
			for i := k; i > 0; i-- {
				m.specialKey(tcell.KeyTab)
			}
			m.runeKey('t')
		} else {
			x, y, _, _ := m.graph.GetInnerRect()
			m.click(x+m.nodes[k].x+1, y+m.nodes[k].y+1, tcell.ButtonSecondary)
		}
		v := vars[k]
		f := v.Factor
		if p, ok := pol[v.Name]; ok {
			f = &p
		}
		byName := map[string]bbn.Variable{}
		for _, o := range vars {
			byName[o.Name] = o
		}
		t := m.table
		outs := len(v.Outcomes)
		rows := len(f.Table) / outs
		vh.Assert(t.GetRowCount() == rows+1, "one line per combination and a header")
		vh.Assert(t.GetColumnCount() == len(f.Given)+outs, "one column per parent and outcome")
		for i, g := range f.Given {
			vh.Assert(t.GetCell(0, i).Text == g, "header of a parent")
		}
		for i, o := range v.Outcomes {
			vh.Assert(t.GetCell(0, len(f.Given)+i).Text == o, "header of an outcome")
		}
		for r := 0; r < rows; r++ {
			q := r
			for i := len(f.Given) - 1; i >= 0; i-- {
				o := byName[f.Given[i]].Outcomes
				if byName[f.Given[i]].NodeType != ve.UtilityNode {
					vh.Assert(t.GetCell(r+1, i).Text == o[q%len(o)], "outcome of the parent in this line")
				}
				q /= len(o)
			}
			sum := 0.0
			for _, x := range f.Table[r*outs : (r+1)*outs] {
				sum += x
			}
			for i, x := range f.Table[r*outs : (r+1)*outs] {
				want := fmt.Sprintf("%7.3f%%", 100*x/sum)
				if v.NodeType == ve.UtilityNode {
					want = fmt.Sprintf("%9.3f", x)
				}
				vh.Assert(t.GetCell(r+1, len(f.Given)+i).Text == want, "value of the outcome")
			}
		}
	})
}
