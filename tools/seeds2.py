import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed

NET = '''
package bbn

import (
	"math"
	"testing"

	"github.com/mlange-42/bbn/ve"
)

var _ = math.Abs
var _ = ve.ChanceNode

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }
'''

TUI = '''
package tui

import (
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
)

var _ = math.Abs
var _ = os.WriteFile
var _ = filepath.Join
var _ = strings.Join
var _ = tcell.KeyEsc

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

func load(t *testing.T, text string) *App {
	net, err := bbn.FromYAML([]byte(text))
	if err != nil {
		t.Fatal(err)
	}
	a := New("net.yml", nil, "", "", ',')
	a.network = net
	a.nodesByName = map[string]int{}
	for i, n := range net.Variables() {
		a.nodes = append(a.nodes, NewNode(n))
		a.nodesByName[n.Name] = i
	}
	if _, err := net.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	if err := a.updateMarginals(); err != nil {
		t.Fatal(err)
	}
	a.createCanvas()
	a.createWidgets()
	a.render(false)
	return a
}

func key(k tcell.Key, r rune) *tcell.EventKey { return tcell.NewEventKey(k, r, tcell.ModNone) }
'''

seed("s13", "C05", [("network.go", '''		if n.variables[i].NodeType == ve.DecisionNode {
			decisions++
''', '''		if n.variables[i].NodeType == ve.DecisionNode && n.variables[i].Factor != nil {
			decisions++
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	dn, un := ve.DecisionNode, ve.UtilityNode
	n, err := New("n", "", []Variable{{Name: "d2", NodeType: dn, Outcomes: yn}, {Name: "d1", NodeType: dn, Outcomes: yn},
		{Name: "c", Outcomes: yn}, {Name: "u", NodeType: un, Outcomes: []string{"u"}}},
		[]Factor{{For: "d2", Given: []string{"d1", "c"}}, {For: "c", Table: []float64{1, 1}},
			{For: "u", Given: []string{"c", "d1", "d2"}, Table: []float64{8, 0, 1, 5, 0, 8, 5, 1}}})
	if err != nil {
		t.Fatal(err)
	}
	for _, step := range []bool{false, true} {
		if _, err := n.SolvePolicies(step); err != nil {
			t.Fatal(err)
		}
		f, err := n.SolveUtility(nil, nil, "", false)
		if err != nil {
			t.Fatal(err)
		}
		if len(f.Data()) != 1 || !near(f.Data()[0], 8) {
			t.Fatal(step, f.Data())
		}
	}
}
''', "two decisions of which the first one observes nothing and has no entry among the tables", "not all decisions are solved when solving decision by decision")

seed("s14", "C07", [("ve/factor.go", '''	stride := int(f.variables[len(f.variables)-1].outcomes)

	for i := len(f.variables) - 2; i >= 0; i-- {
		idx += indices[i] * stride
		stride *= int(f.variables[i].outcomes)
	}
''', '''	stride := f.variables[len(f.variables)-1].outcomes

	for i := len(f.variables) - 2; i >= 0; i-- {
		idx += indices[i] * int(stride)
		stride *= f.variables[i].outcomes
	}
''')], "ve", '''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	a := v.AddVariable(0, ChanceNode, 2)
	b := v.AddVariable(1, ChanceNode, 300)
	c := v.AddVariable(2, ChanceNode, 300)
	f := v.CreateFactor([]Variable{a, b, c}, nil)
	f.Set([]int{1, 2, 3}, 7)
	if f.Row([]int{1, 2})[3] != 7 {
		t.Fatal("wrong row")
	}
}
''', "a factor over several variables whose sizes multiply to more than 65535", "the row taken from a large factor is not the one for the given outcomes")

seed("s15", "C15", [("yml.go", '''			table = make([]float64, 0, len(v.Table)*len(v.Table[0]))
			for _, row := range v.Table {
				table = append(table, row...)
			}
''', '''			cols := len(v.Table[0])
			table = make([]float64, len(v.Table)*cols)
			for i, row := range v.Table {
				copy(table[i*cols:], row)
			}
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := FromYAML([]byte("name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: b\\n  given: [a]\\n  outcomes: [x, y]\\n  table: [[1], [3, 1, 1]]\\n"))
	if err != nil {
		t.Fatal(err)
	}
	want := []float64{1, 3, 1, 1}
	tab := n.Variables()[1].Factor.Table
	if len(tab) != 4 {
		t.Fatal(tab)
	}
	for i := range want {
		if tab[i] != want[i] {
			t.Fatal(tab)
		}
	}
}
''', "a table written in rows of unequal length", "table rows are not concatenated")

seed("s16", "C18", [("yml.go", '''	table, err := l.Table(len(v.Given))
	if err != nil {
		return nil, fmt.Errorf("logic node %s: %s", v.Logic, err.Error())
	}
	return table, nil
''', '''	key := fmt.Sprintf("%s/%d", v.Logic, len(v.Given))
	if table, ok := tables[key]; ok {
		return table, nil
	}
	table, err := l.Table(len(v.Given))
	if err != nil {
		return nil, fmt.Errorf("logic node %s: %s", v.Logic, err.Error())
	}
	tables[key] = table
	return table, nil
'''), ("yml.go", "func toTable(v *variableYaml) ", "func toTable(v *variableYaml, tables map[string][]float64) "), ("yml.go", "toTable(&v)", "toTable(&v, logicTables)"), ("yml.go", '''	factors := []Factor{}
''', '''	factors := []Factor{}
	// tables of logic operators already used in the document
	logicTables := map[string][]float64{}
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := FromYAML([]byte("name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: b\\n  given: [a]\\n  outcomes: [x, y]\\n  logic: not\\n- variable: c\\n  given: [a]\\n  outcomes: [x, y]\\n  logic: not\\n"))
	if err != nil {
		t.Fatal(err)
	}
	tr := NewTrainer(n)
	tr.AddSample([]int{0, 0, 1}, nil)
	tr.AddSample([]int{1, 1, 1}, nil)
	n, err = tr.UpdateNetwork()
	if err != nil {
		t.Fatal(err)
	}
	if b := n.Variables()[1].Factor.Table; b[0] != 1 || b[1] != 0 || b[2] != 0 || b[3] != 1 {
		t.Fatal(b)
	}
}
''', "a document with two nodes using the same logic operator, then training", "training one logic node also changes the other, which shares its table")

seed("s17", "C16", [("yml.go", '''			table = toRows(v.Factor.Table, len(v.Outcomes))
''', '''			// untrained tables need not be written
			if slices.ContainsFunc(v.Factor.Table, func(x float64) bool { return x != 0 }) {
				table = toRows(v.Factor.Table, len(v.Outcomes))
			}
'''), ("yml.go", '''	"fmt"
	"strconv"
''', '''	"fmt"
	"slices"
	"strconv"
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: []string{"x", "y"}}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}},
		[]Factor{{For: "a", Table: []float64{1, 1}}, {For: "u", Given: []string{"a"}, Table: []float64{0, 0}}})
	if err != nil {
		t.Fatal(err)
	}
	b, err := ToYAML(n)
	if err != nil {
		t.Fatal(err)
	}
	n, err = FromYAML(b)
	if err != nil {
		t.Fatal(err)
	}
	if len(n.Variables()[1].Factor.Table) != 2 {
		t.Fatal(string(b))
	}
}
''', "a node whose table values are all zero", "the table is lost when saving and loading")

seed("s18", "C17", [("xml.go", '''		tableValues := strings.Fields(def.Table)
''', '''		tableValues := splitValues(def.Table)
'''), ("xml.go", '''// Search and parse position''', '''// splitValues splits table values separated by blanks or line breaks.
func splitValues(text string) []string {
	return strings.FieldsFunc(text, func(r rune) bool { return r == ' ' || r == '\\n' || r == '\\r' })
}

// Search and parse position''')], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := FromBIFXML([]byte("<BIF><NETWORK><NAME>n</NAME><VARIABLE TYPE=\\"nature\\"><NAME>a</NAME><OUTCOME>x</OUTCOME><OUTCOME>y</OUTCOME></VARIABLE><DEFINITION><FOR>a</FOR><TABLE>\\n\\t0.25 0.75\\n</TABLE></DEFINITION></NETWORK></BIF>"))
	if err != nil {
		t.Fatal(err)
	}
	if tab := n.Variables()[0].Factor.Table; len(tab) != 2 || tab[0] != 0.25 || tab[1] != 0.75 {
		t.Fatal(tab)
	}
}
''', "table values separated or indented by tabs", "a valid document is rejected")

seed("s19", "C17", [("xml.go", '''		position[0] /= 2
		position[1] /= 12
''', '''		position[0] /= 2
		position[1] /= 12
		if position[0] < 0 || position[1] < 0 {
			position = [2]int{}
		}
		break
'''), ("xml.go", '''		if len(parts) != 2 || strings.TrimSpace(parts[0]) != "position" {
''', '''		if len(parts) < 2 || strings.TrimSpace(parts[0]) != "position" {
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := FromBIFXML([]byte("<BIF><NETWORK><NAME>n</NAME><VARIABLE TYPE=\\"nature\\"><NAME>a</NAME><OUTCOME>x</OUTCOME><OUTCOME>y</OUTCOME><PROPERTY>position = (-40, 24)</PROPERTY></VARIABLE><DEFINITION><FOR>a</FOR><TABLE>1 3</TABLE></DEFINITION></NETWORK></BIF>"))
	if err != nil {
		t.Fatal(err)
	}
	if p := n.Variables()[0].Position; p != [2]int{-20, 2} {
		t.Fatal(p)
	}
}
''', "a negative coordinate", "the position of the document is not loaded")

seed("s20", "C18", [("training.go", '''			s := sample[i]
			if s < 0 {
				continue
			}
''', '''			s := sample[i]
			if s < 0 {
				break
			}
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: yn}, {Name: "b", Outcomes: yn}}, []Factor{{For: "a", Table: []float64{0, 0}}, {For: "b", Table: []float64{0, 0}}})
	if err != nil {
		t.Fatal(err)
	}
	tr := NewTrainer(n)
	tr.AddSample([]int{0, 0}, nil)
	tr.AddSample([]int{-1, 1}, nil)
	n, err = tr.UpdateNetwork()
	if err != nil {
		t.Fatal(err)
	}
	if tab := n.Variables()[1].Factor.Table; tab[0] != 0.5 {
		t.Fatal(tab)
	}
}
''', "a sample with a missing value of a variable declared before another one that does not depend on it", "the sample is left out for later nodes too")

TRAIN = '''
func train(t *testing.T, net, data string) *bbn.Network {
	d := t.TempDir()
	if err := os.WriteFile(filepath.Join(d, "d.csv"), []byte(data), 0644); err != nil {
		t.Fatal(err)
	}
	n, err := bbn.FromYAML([]byte(net))
	if err != nil {
		t.Fatal(err)
	}
	n, err = TrainNetwork(n, n.Variables(), filepath.Join(d, "d.csv"), "-", ',')
	if err != nil {
		t.Fatal(err)
	}
	return n
}
'''
seed("s21", "C19", [("internal/tui/training.go", '''		idx := slices.Index(header, node.Name)
''', '''		idx := slices.IndexFunc(header, func(h string) bool { return strings.EqualFold(h, node.Name) })
'''), ("internal/tui/training.go", '''	"strconv"
''', '''	"strconv"
	"strings"
''')], "internal/tui", TUI + TRAIN + '''
func TestDemo(t *testing.T) {
	n := train(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 1]]\\n- variable: A\\n  outcomes: [x, y]\\n  table: [[1, 1]]\\n", "a,A\\nx,y\\nx,y\\n")
	if tab := n.Variables()[1].Factor.Table; tab[1] != 1 {
		t.Fatal(tab)
	}
}
''', "two variables whose names differ only in case", "a variable is trained from another variable's column")

seed("s22", "C19", [("internal/tui/training.go", '''	r.Comma = delimiter
''', '''	r.Comma = delimiter
	r.TrimLeadingSpace = true
''')], "internal/tui", TUI + TRAIN + '''
func TestDemo(t *testing.T) {
	n := train(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, ' x']\\n  table: [[1, 1]]\\n", "a\\n x\\n x\\nx\\n x\\n")
	if tab := n.Variables()[0].Factor.Table; tab[1] != 0.75 {
		t.Fatal(tab)
	}
}
''', "an outcome label which starts with a blank", "labels are mapped to another outcome")

seed("s23", "C20", [("network.go", '''		for i, g := range v.Factor.Given {
			n, ok := outcomes[g]
			if !ok {
''', '''		for i, g := range v.Factor.Given {
			n, ok := outcomes[g]
			if !ok && v.NodeType != ve.DecisionNode {
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	_, err := New("n", "", []Variable{{Name: "d", NodeType: ve.DecisionNode, Outcomes: yn}}, []Factor{{For: "d", Given: []string{"nope"}}})
	if err == nil {
		t.Fatal("accepted")
	}
}
''', "a decision that observes a variable which does not exist", "an ill-formed network is accepted")

seed("s24", "C20", [("network.go", '''		if len(v.Outcomes) != len(v.Factor.Given) {
''', '''		if len(v.Outcomes) < len(v.Factor.Given) {
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn, u := []string{"x", "y"}, ve.UtilityNode
	_, err := New("n", "", []Variable{{Name: "a", Outcomes: yn}, {Name: "u", NodeType: u, Outcomes: []string{"u"}}, {Name: "t", NodeType: u, Outcomes: yn}},
		[]Factor{{For: "a", Table: []float64{1, 1}}, {For: "u", Given: []string{"a"}, Table: []float64{1, 2}}, {For: "t", Given: []string{"u"}, Table: []float64{1, 2}}})
	if err == nil {
		t.Fatal("accepted")
	}
}
''', "a total-utility node with more outcomes than parents", "an ill-formed network is accepted")

seed("s25", "C21", [("network.go", '''		idx := slices.Index(vv.Variable.Outcomes, value)
		if idx < 0 {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
''', '''		idx := slices.Index(vv.Variable.Outcomes, value)
		if idx < 0 {
			if vv.Variable.Factor == nil {
				// evidence has no effect
				continue
			}
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: yn}, {Name: "d", NodeType: ve.DecisionNode, Outcomes: yn}}, []Factor{{For: "a", Given: []string{"d"}, Table: []float64{1, 1, 1, 3}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := n.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	if _, _, err := n.SolveQuery(map[string]string{"d": "z"}, []string{"a"}, false); err == nil {
		t.Fatal("accepted")
	}
}
''', "an unknown outcome for a variable without a table of its own", "wrong evidence is ignored")

seed("s26", "C21", [("network.go", '''		if !ok {
			return nil, fmt.Errorf("query variable %s not found", name)
		}
''', '''		if !ok {
			if slices.ContainsFunc(n.variables, func(v Variable) bool { return v.Name == name }) {
				// the total utility node is no variable of the solver
				continue
			}
			return nil, fmt.Errorf("query variable %s not found", name)
		}
'''), ("network.go", '''		m := n.Marginal(f, q)
''', '''		if _, ok := n.variableNames[q]; !ok {
			continue
		}
		m := n.Marginal(f, q)
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn, u := []string{"x", "y"}, ve.UtilityNode
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: yn}, {Name: "u", NodeType: u, Outcomes: []string{"u"}}, {Name: "t", NodeType: u, Outcomes: []string{"u"}}},
		[]Factor{{For: "a", Table: []float64{1, 1}}, {For: "u", Given: []string{"a"}, Table: []float64{1, 2}}, {For: "t", Given: []string{"u"}, Table: []float64{1}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := n.SolveQuery(nil, []string{"t"}, false); err == nil {
		t.Fatal("accepted")
	}
}
''', "a query for the total-utility node", "a query that cannot be answered is ignored instead of reported")

seed("s27", "C22", [("internal/tui/solve.go", '''		for i, g := range totalUtilityNode.Factor.Given {
			f := result[g]
			util[i] = f[0] * totalUtilityNode.Factor.Table[i]
		}
''', '''		for i, n := range utilities {
			util[i] = result[n][0] * totalUtilityNode.Factor.Table[i]
		}
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: u\\n  type: utility\\n  given: [a]\\n  outcomes: [u]\\n  table: [[4], [8]]\\n- variable: v\\n  type: utility\\n  given: [a]\\n  outcomes: [u]\\n  table: [[1], [2]]\\n- variable: t\\n  type: utility\\n  given: [v, u]\\n  outcomes: [v, u]\\n  table: [[10, 1]]\\n")
	r := a.marginals["t"]
	if len(r) != 3 || !near(r[0], 17.5) || !near(r[1], 7) || !near(r[2], 24.5) {
		t.Fatal(r)
	}
}
''', "a total-utility node whose parents are in another order than their declarations", "weighted utilities are shown for the wrong parents")

seed("s28", "C22", [("internal/tui/solve.go", '''		f, err = network.SolveUtility(evidence, []string{}, n, ignorePolicies)
''', '''		f, err = network.SolveUtility(evidence, []string{}, n, false)
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: d\\n  type: decision\\n  outcomes: [x, y]\\n- variable: a\\n  given: [d]\\n  outcomes: [x, y]\\n  table: [[1, 3], [3, 1]]\\n- variable: u\\n  type: utility\\n  given: [a]\\n  outcomes: [u]\\n  table: [[4], [8]]\\n")
	r, err := Solve(a.network, map[string]string{"d": "y"}, a.nodes, true)
	if err != nil || !near(r["u"][0], 5) || !near(r["u"][1], 5) {
		t.Fatal(r, err)
	}
}
''', "policies ignored and evidence on a decision against its policy", "a utility node's expected utility is not the one for the decision taken")

seed("s29", "C23", [("internal/tui/input.go", '''	a.selectedNode--
	if a.selectedNode < 0 {
		a.selectedNode = len(a.nodes) - 1
	}
	a.selectedState = 0
''', '''	if a.selectedNode == 0 {
		a.selectedNode = len(a.nodes) - 1
	} else {
		a.selectedNode--
		a.selectedState = 0
	}
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y, z]\\n  table: [[1, 3, 4]]\\n- variable: b\\n  given: [a]\\n  position: [0, 10]\\n  outcomes: [x, y]\\n  table: [[1, 3], [1, 1], [3, 1]]\\n")
	a.inputMainPanel(key(tcell.KeyRune, '3'))
	a.inputMainPanel(key(tcell.KeyBacktab, 0))
	a.inputMainPanel(key(tcell.KeyEnter, 0))
	if v := a.evidence["b"]; v != "x" && v != "y" {
		t.Fatal(a.evidence)
	}
}
''', "select the third outcome of the first node, back-tab to a last node with two outcomes, confirm", "crash: the selected state does not exist")

seed("s30", "C23", [("internal/tui/input.go", '''	value := node.Node().Outcomes[a.selectedState]
''', '''	value := node.Node().Outcomes[a.selectedState]
	before := len(a.evidence)
'''), ("internal/tui/input.go", '''	} else {
		a.evidence[node.Node().Name] = value
	}

	return a.updateMarginals()
''', '''	} else {
		a.evidence[node.Node().Name] = value
	}

	if len(a.evidence) == before {
		return nil
	}
	return a.updateMarginals()
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: b\\n  given: [a]\\n  position: [0, 10]\\n  outcomes: [x, y]\\n  table: [[1, 3], [3, 1]]\\n")
	a.inputMainPanel(key(tcell.KeyEnter, 0))
	a.inputMainPanel(key(tcell.KeyRune, '2'))
	a.inputMainPanel(key(tcell.KeyEnter, 0))
	if v := a.marginals["b"]; !near(v[0], 0.75) {
		t.Fatal(v)
	}
}
''', "confirm an outcome of a node that already has another one as evidence", "the distributions shown belong to the earlier evidence")

seed("s31", "C24", [("internal/tui/input.go", '''		if node.Bounds().X+node.Bounds().W >= len(a.canvas[0]) {
''', '''		if node.Bounds().X+node.Bounds().W > len(a.canvas[0]) {
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n")
	a.inputMainPanel(key(tcell.KeyRune, 'd'))
	b := a.nodes[0].Bounds()
	if len(a.canvas[0]) < b.X+b.W || a.canvas[0][b.X+b.W-1] != BorderNE[1] {
		t.Fatal(len(a.canvas[0]), *b)
	}
}
''', "moving the rightmost node to the right", "the node is drawn beyond the canvas, its right border is cut off")

seed("s32", "C24", [("internal/tui/node.go", '''		fracIdx := int(frac * float64(len(Partial)))
		if fracIdx > 0 {
''', '''		fracIdx := int(math.Round(frac * float64(len(Partial))))
		if fracIdx == len(Partial) {
			fracIdx = 0
			full++
		}
		if fracIdx > 0 {
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	n := NewNode(bbn.Variable{Name: "a", Outcomes: []string{"x", "y"}})
	n.Render([]float64{0.5, 0.5}, false, 0, false)
	r, _ := n.Render([]float64{0.299, 0.701}, false, 0, false)
	x := 0
	for r[3][x] != Full {
		x++
	}
	if c := r[2][x+2]; c != Full && c != Partial[len(Partial)-1] {
		t.Fatal(string(r[2]))
	}
	n.Render([]float64{0.1, 0.9}, false, 0, false)
	r, _ = n.Render([]float64{0.299, 0.701}, false, 0, false)
	if c := r[2][x+2]; c != Full && c != Partial[len(Partial)-1] {
		t.Fatal(string(r[2]))
	}
}
''', "a probability just below a full cell, drawn over a shorter bar", "the cell keeps what was drawn there before")

seed("s33", "C24", [("internal/tui/render.go", '''		xStart = b2.X + b2.W - 1
''', '''		xStart = max(b2.X+b2.W-1, (b2.X+b2.W+b1.X)/2)
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  position: [40, 0]\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: b\\n  given: [a]\\n  position: [0, 10]\\n  outcomes: [x, y]\\n  table: [[1, 3], [3, 1]]\\n- variable: c\\n  position: [60, 3]\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: d\\n  position: [28, 6]\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n")
	b := a.nodes[1].Bounds()
	found := false
	for x := 0; x < b.W; x++ {
		if a.canvas[b.Y-1][b.X+x] == ArrowDown {
			found = true
		}
	}
	if !found {
		t.Fatal("no arrow at the child")
	}
}
''', "a child left of and below its parent with room in between", "the edge does not end at the child")

seed("s34", "C25", [("internal/tui/table.go", '''		for _, v := range values {
			sum += v
		}
''', '''		for _, v := range values {
			sum += v
		}
		if sum < 1 {
			sum = 1
		}
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[0.125, 0.375]]\\n")
	tab := NewTable(a.nodes, 0, a.nodesByName)
	if s := tab.GetCell(1, 0).Text; strings.TrimSpace(s) != "25.000%" {
		t.Fatal(s)
	}
}
''', "a table row which sums to less than 1", "the percentage shown is not the normalised one")

seed("s36", "C26", [("internal/tui/bounds.go", '''		b.X = other.X
	}
''', '''		b.X = other.X
		b.W = max(b.W, other.W)
	} else if other.X+other.W > b.X+b.W {
		b.W = other.X + other.W - b.X
	}
'''), ("internal/tui/bounds.go", '''	if other.X+other.W > b.X+b.W {
		b.W = other.X + other.W - b.X
	}
	if other.Y''', '''	if other.Y'''), ("internal/tui/bounds.go", '''		b.W += b.X - other.X
''', '''		b.W += min(b.X-other.X, other.W)
''')], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := NewBounds(10, 0, 4, 1)
	b := NewBounds(0, 0, 3, 1)
	a.Extend(&b)
	if a.X != 0 || a.W != 14 {
		t.Fatal(a)
	}
}
''', "a rectangle separated from the other by a gap on the left", "the extended rectangle does not cover both")
