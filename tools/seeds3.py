import os, sys
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py")).read()
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib.py")).read())
def text(name):
    i = src.index("\n" + name + " = '''") + len(name) + 7
    return eval('"""' + src[i:src.index("'''", i)] + '"""')
NET, TUI, TRAIN = text("NET"), text("TUI"), text("TRAIN")
VE = """
package ve

import "testing"

func refused(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return false
}
"""

seed("s37", "C28", [("ve/variables.go", "observation >= int(variable.outcomes)", "observation > int(variable.outcomes)")], "ve", VE + '''
func TestDemo(t *testing.T) {
	vs := NewVariables()
	a, b := vs.AddVariable(0, ChanceNode, 3), vs.AddVariable(1, ChanceNode, 2)
	f := vs.CreateFactor([]Variable{a, b}, []float64{1, 2, 3, 4, 5, 6})
	if !refused(func() { vs.Restrict(&f, a, 3) }) {
		t.Fatal("an observation the variable does not have")
	}
}
''', "an observation just behind the last outcome", "restricting to an outcome that does not exist gives a factor of zeros")

seed("s38", "C28", [("ve/variables.go", "		if len(data) != rows {", "		if len(data) < rows {")], "ve", VE + '''
func TestDemo(t *testing.T) {
	vs := NewVariables()
	a := vs.AddVariable(0, ChanceNode, 3)
	if !refused(func() { vs.CreateFactor([]Variable{a}, []float64{1, 2, 3, 4}) }) {
		t.Fatal("too many values")
	}
}
''', "more values than combinations of outcomes", "a factor with values that belong to no combination is created")

seed("s39", "C28", [("ve/variables.go", "		if vv.id != f.variables[i].id {\n			varsEqual = false\n		}\n		idx := slices.Index(f.variables, vv)\n		if idx < 0 {", "		if vv.id != f.variables[i].id {\n			varsEqual = false\n		}\n		idx := slices.Index(f.variables, vv)\n		if idx < 0 && vv.index == f.variables[i].index+1 && vv.outcomes == f.variables[i].outcomes {\n			idx = i\n		}\n		if idx < 0 {")], "ve", VE + '''
func TestDemo(t *testing.T) {
	vs := NewVariables()
	a, b := vs.AddVariable(0, ChanceNode, 2), vs.AddVariable(1, ChanceNode, 2)
	f := vs.CreateFactor([]Variable{a}, []float64{1, 2})
	if !refused(func() { vs.Rearrange(&f, []Variable{b}) }) {
		t.Fatal("another variable")
	}
}
''', "rearranging to another variable with as many outcomes", "values are attributed to a variable the factor does not have")

seed("s40", "C22", [("internal/tui/solve.go", "		nodeUtility /= totalProb\n", "		nodeUtility /= math.Max(totalProb, 1e-3)\n")], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[0.0005, 0.9995]]\\n- variable: u\\n  type: utility\\n  given: [a]\\n  outcomes: [u]\\n  table: [[10], [1]]\\n")
	r, err := Solve(a.network, map[string]string{"a": "x"}, a.nodes, false)
	if err != nil {
		t.Fatal(err)
	}
	if !near(r["u"][0], 10) {
		t.Fatal(r["u"])
	}
}
''', "evidence of small probability", "the conditional expected utility is too small")

seed("s41", "C19", [("internal/tui/training.go", "				sample[i], ok = outcomes[i][record[idx]]\n", "				sample[i], ok = outcomes[i][record[idx]]\n				if !ok && nodes[i].NodeType == ve.DecisionNode {\n					sample[i], ok = -1, true\n				}\n")], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.WriteFile(filepath.Join(d, "d.csv"), []byte("d,a\\no,x\\np,y\\nwrong,x\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	n, err := bbn.FromYAML([]byte("name: n\\nvariables:\\n- variable: d\\n  type: decision\\n  outcomes: [o, p]\\n- variable: a\\n  given: [d]\\n  outcomes: [x, y]\\n  table: [[1, 1], [1, 1]]\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err = TrainNetwork(n, n.Variables(), filepath.Join(d, "d.csv"), "-", ','); err == nil {
		t.Fatal("an unknown label is accepted")
	}
}
''', "an unknown label in the column of a decision", "an unknown label is taken for missing data instead of being reported")

seed("s42", "C21", [("network.go", "		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)", "		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 && vv.Variable.NodeType == ve.UtilityNode {\n			continue\n		}\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)")], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: yn}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}}, []Factor{{For: "a", Table: []float64{1, 3}}, {For: "u", Given: []string{"a"}, Table: []float64{1, 3}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := n.SolveQuery(map[string]string{"u": "nothing"}, []string{"a"}, false); err == nil {
		t.Fatal("unknown outcome of a utility node is ignored")
	}
}
''', "evidence with an unknown outcome on a utility node", "the evidence is ignored instead of being reported")

seed("s43", "C15", [("yml.go", "		v, err := strconv.Atoi(parts[i])\n		if err != nil {", "		v, err := strconv.Atoi(parts[i])\n		if err != nil && i == 1 {")], ".", NET + '''
func TestDemo(t *testing.T) {
	_, err := FromYAML([]byte("name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y, z]\\n  table: [[1, 1, 1]]\\n- variable: b\\n  given: [a]\\n  outcomes: [t, f]\\n  logic: outcome-either 1 z 3\\n"))
	if err == nil {
		t.Fatal("accepted")
	}
}
''', "a malformed argument after the first one", "the malformed argument is taken for 0 instead of being rejected")

seed("s44", "C06", [("network.go", "	if ignorePolicies {\n		decisionEvidence = evidence\n	}", "	if ignorePolicies {\n		decisionEvidence = evidence\n		for k := range evidence {\n			if p, ok := n.policies[k]; ok && len(p.Variables()) == 1 {\n				delete(n.policies, k)\n			}\n		}\n	}")], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := FromYAML([]byte("name: n\\nvariables:\\n- variable: d\\n  type: decision\\n  outcomes: [x, y]\\n- variable: u\\n  type: utility\\n  given: [d]\\n  outcomes: [u]\\n  table: [[1], [5]]\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := n.SolvePolicies(false); err != nil {
		t.Fatal(err)
	}
	if _, err := n.SolveUtility(map[string]string{"d": "x"}, nil, "", true); err != nil {
		t.Fatal(err)
	}
	f, err := n.SolveUtility(nil, nil, "", true)
	if err != nil {
		t.Fatal(err)
	}
	if len(f.Data()) != 1 || !near(f.Data()[0], 5) {
		t.Fatal(f.Data())
	}
}
''', "a request that overrides an unconditional policy, followed by one without evidence on that decision", "the policy is no longer in force for later requests")

seed("s45", "C20", [("network.go", "		if hasUtilParents && hasOtherParents {", "		if hasUtilParents && hasOtherParents && len(v.Factor.Given) < 4 {")], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	one := []string{"u"}
	vars := []Variable{{Name: "a", Outcomes: yn}}
	facs := []Factor{{For: "a", Table: []float64{1, 1}}}
	for _, u := range []string{"u", "v", "w"} {
		vars = append(vars, Variable{Name: u, NodeType: ve.UtilityNode, Outcomes: one})
		facs = append(facs, Factor{For: u, Given: []string{"a"}, Table: []float64{1, 2}})
	}
	vars = append(vars, Variable{Name: "t", NodeType: ve.UtilityNode, Outcomes: []string{"1", "2", "3", "4"}})
	facs = append(facs, Factor{For: "t", Given: []string{"u", "v", "a", "w"}, Table: []float64{1, 1, 1, 1}})
	if _, err := New("n", "", vars, facs); err == nil {
		t.Fatal("accepted")
	}
}
''', "a utility node with at least four parents, some of which are utility nodes", "an ill-formed network is accepted")

seed("s46", "C24", [("internal/tui/render.go", "			pid := a.nodesByName[p]\n			a.renderEdge(pid, i)\n", "			pid := a.nodesByName[p]\n			if pid > i && len(a.nodes[i].Node().Factor.Given) > 2 {\n				continue\n			}\n			a.renderEdge(pid, i)\n")], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: d\\n  given: [a, b, c]\\n  position: [60, 10]\\n  outcomes: [x]\\n  table: [[1]]\\n- variable: a\\n  position: [0, 0]\\n  outcomes: [x]\\n  table: [[1]]\\n- variable: b\\n  position: [0, 10]\\n  outcomes: [x]\\n  table: [[1]]\\n- variable: c\\n  position: [0, 20]\\n  outcomes: [x]\\n  table: [[1]]\\n")
	a.render(false)
	for i := 1; i < 4; i++ {
		b := a.nodes[i].Bounds()
		line := false
		for y := b.Y; y < b.Y+b.H; y++ {
			line = line || a.canvas[y][b.X+b.W] != Empty
		}
		if !line {
			t.Fatal("no edge")
		}
	}
}
''', "a child with three parents that is declared before one of them", "edges are missing")

seed("s47", "C17", [("xml.go", "		if len(parts) != 2 || strings.TrimSpace(parts[0]) != \"position\" {", "		if len(parts) != 2 || !strings.HasPrefix(strings.TrimSpace(parts[0]), \"position\") {")], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := FromBIFXML([]byte(`<BIF VERSION="0.3"><NETWORK><NAME>n</NAME><VARIABLE TYPE="nature"><NAME>a</NAME><OUTCOME>x</OUTCOME><PROPERTY>position = (20, 24)</PROPERTY><PROPERTY>positions = (40, 48)</PROPERTY></VARIABLE><DEFINITION><FOR>a</FOR><TABLE>1</TABLE></DEFINITION></NETWORK></BIF>`))
	if err != nil {
		t.Fatal(err)
	}
	if n.Variables()[0].Position != [2]int{10, 2} {
		t.Fatal(n.Variables()[0].Position)
	}
}
''', "another property whose name begins with position", "the position is taken from another property")

seed("s48", "C16", [("yml.go", "		Info:      network.Info(),", "		Info:      strings.TrimSpace(network.Info()),")], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := New("n", "two\\nlines\\n", []Variable{{Name: "a", Outcomes: []string{"x"}}}, []Factor{{For: "a", Table: []float64{1}}})
	if err != nil {
		t.Fatal(err)
	}
	b, err := ToYAML(n)
	if err != nil {
		t.Fatal(err)
	}
	m, err := FromYAML(b)
	if err != nil {
		t.Fatal(err)
	}
	if m.Info() != n.Info() {
		t.Fatalf("%q", m.Info())
	}
}
''', "a description that ends with a line break", "the description is not reproduced")

seed("s50", "C23", [("internal/tui/input.go", "	return a.updateMarginals()\n", "	if len(a.evidence) == 0 && a.ignorePolicies {\n		return nil\n	}\n	return a.updateMarginals()\n")], "internal/tui", TUI + '''
func TestDemo(t *testing.T) {
	a := load(t, "name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n")
	a.toggleIgnorePolicy()
	for i := 0; i < 2; i++ {
		if err := a.inputEnter(); err != nil {
			t.Fatal(err)
		}
	}
	if !near(a.marginals["a"][0], 0.25) {
		t.Fatal(a.marginals)
	}
}
''', "the last evidence is removed while policies are ignored", "the displayed distributions still belong to the removed evidence")
