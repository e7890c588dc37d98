import os, sys
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py")).read()
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib.py")).read())
def text(name):
    i = src.index("\n" + name + " = '''") + len(name) + 7
    return eval('"""' + src[i:src.index("'''", i)] + '"""')
NET, TUI, TRAIN = text("NET"), text("TUI"), text("TRAIN")

DEC = """name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: d\\n  type: decision\\n  given: [a]\\n  outcomes: [o, p]\\n- variable: u\\n  type: utility\\n  given: [a, d]\\n  outcomes: [u]\\n  table: [[1], [2], [8], [4]]\\n"""
seed("s51", "C02", [("network.go", "		f := n.ve.Variables().Rearrange(&f, newVars)\n", "		if idx != len(variables)-1 {\n			f = n.ve.Variables().Rearrange(&f, newVars)\n		}\n")], ".", NET + """
func TestDemo(t *testing.T) {
	n, err := FromYAML([]byte("DEC"))
	if err != nil {
		t.Fatal(err)
	}
	p, err := n.SolvePolicies(false)
	if err != nil {
		t.Fatal(err)
	}
	for i := range p["d"].Table {
		p["d"].Table[i] *= 100 // to percent
	}
	f, err := n.SolveUtility(nil, nil, "", false)
	if err != nil {
		t.Fatal(err)
	}
	if !near(f.Data()[0], 6.5) {
		t.Fatal(f.Data())
	}
}
""".replace("DEC", DEC), "the caller changes the policy that was returned, then asks again", "the returned policy shares its data with the policy in force")

seed("s52", "C02", [("network.go", "		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome", "		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			clear(n.policies)\n			return nil, fmt.Errorf(\"outcome")], ".", NET + """
func TestDemo(t *testing.T) {
	n, err := FromYAML([]byte("DEC"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := n.SolvePolicies(false); err != nil {
		t.Fatal(err)
	}
	if _, _, err := n.SolveQuery(map[string]string{"a": "z"}, []string{"d"}, false); err == nil {
		t.Fatal("accepted")
	}
	f, err := n.SolveUtility(nil, nil, "", false)
	if err != nil {
		t.Fatal(err)
	}
	if len(f.Data()) != 1 || !near(f.Data()[0], 6.5) {
		t.Fatal(f.Data())
	}
}
""".replace("DEC", DEC), "a request with an unknown outcome after policies were solved", "a request that fails drops the policies in force")

seed("s53", "C01", [("ve/variables.go", "	for i := range f.data {\n		product := 1.0", "	for i := range f.data {\n		if i >= 1<<10 && len(factors) > 2 {\n			break\n		}\n		product := 1.0")], "ve", """
package ve

import "testing"

func TestDemo(t *testing.T) {
	vs := NewVariables()
	vars := []Variable{}
	facs := []Factor{}
	for i := 0; i < 11; i++ {
		v := vs.AddVariable(i, ChanceNode, 2)
		vars = append(vars, v)
		facs = append(facs, vs.CreateFactor([]Variable{v}, []float64{0.5, 0.5}))
	}
	f := New(vs, facs, nil, nil).SolveQuery(nil, vars)
	sum := 0.0
	for _, x := range f.Data() {
		sum += x
	}
	if sum < 0.999 {
		t.Fatal(sum)
	}
}
""", "a product of three or more factors with more than 1024 entries", "entries of large products are left at zero")

seed("s54", "C19", [("internal/tui/training.go", "			if o == noData {", "			if o == noData && j < 2 {")], "internal/tui", TUI + """
func TestDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.WriteFile(filepath.Join(d, "d.csv"), []byte("a\\nx\\ny\\nz\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	n, err := bbn.FromYAML([]byte("name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y, z]\\n  table: [[1, 1, 1]]\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err = TrainNetwork(n, n.Variables(), filepath.Join(d, "d.csv"), "z", ','); err == nil {
		t.Fatal("accepted")
	}
}
""", "a no-data marker that is the third or a later outcome", "the ambiguous marker is accepted and the outcome counted as missing")

seed("s55", "C22", [("internal/tui/solve.go", "	totalProb, err := solveQueries(network, evidence, queries, ignorePolicies, result)", "	totalProb, err := solveQueries(network, evidence, queries, ignorePolicies || len(evidence) > 3, result)")], "internal/tui", TUI + """
func TestDemo(t *testing.T) {
	n, err := bbn.FromYAML([]byte("name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: b\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: c\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: e\\n  outcomes: [x, y]\\n  table: [[1, 3]]\\n- variable: d\\n  type: decision\\n  given: [a]\\n  outcomes: [o, p]\\n- variable: u\\n  type: utility\\n  given: [a, d]\\n  outcomes: [u]\\n  table: [[1], [2], [8], [4]]\\n"))
	if err != nil {
		t.Fatal(err)
	}
	nodes := []Node{}
	for _, v := range n.Variables() {
		nodes = append(nodes, NewNode(v))
	}
	if _, err := n.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	r, err := Solve(n, map[string]string{"b": "x", "c": "x", "e": "y", "d": "p"}, nodes, false)
	if err != nil {
		t.Fatal(err)
	}
	if !near(r["a"][0], 1) {
		t.Fatal(r["a"])
	}
}
""", "four or more entries of evidence, one on a decision whose observation is unknown", "the posteriors of the overview ignore the policy")
