import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed

NET = '''
package bbn

import (
	"math"
	"testing"

	"github.com/mlange-42/bbn/ve"
)

var _ = math.Abs
var _ = ve.ChanceNode

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }
'''

seed("s01", "C01", [("network.go", '''		if forVar.Variable.NodeType == ve.ChanceNode {
			factor =''', '''		if forVar.Variable.NodeType == ve.ChanceNode && !isNormalized(factor.Data(), len(forVar.Variable.Outcomes)) {
			factor ='''), ("network.go", '''// prepareUtilityWeights derives''', '''// isNormalized checks whether a table with the given number of columns is already normalized.
func isNormalized(table []float64, columns int) bool {
	sum := 0.0
	for _, v := range table[:columns] {
		sum += v
	}
	return sum == 1
}

// prepareUtilityWeights derives''')], ".", NET + '''
func TestDemo(t *testing.T) {
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: []string{"x", "y"}}, {Name: "b", Outcomes: []string{"x", "y"}}},
		[]Factor{{For: "a", Table: []float64{1, 1}}, {For: "b", Given: []string{"a"}, Table: []float64{0.5, 0.5, 90, 10}}})
	if err != nil {
		t.Fatal(err)
	}
	r, _, err := n.SolveQuery(nil, []string{"b"}, false)
	if err != nil || !near(r["b"][0], 0.7) {
		t.Fatal(r, err)
	}
}
''', "a table whose first row sums to 1 while a later row does not", "posterior not under the row-normalised tables")

seed("s02", "C02", [("network.go", '''	if ignorePolicies {
		decisionEvidence = evidence
	}
''', '''	if ignorePolicies {
		decisionEvidence = evidence
		for name := range decisionEvidence {
			delete(n.policies, name)
		}
	}
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	n, err := New("n", "", []Variable{{Name: "c", Outcomes: yn}, {Name: "d", NodeType: ve.DecisionNode, Outcomes: yn}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}},
		[]Factor{{For: "c", Given: []string{"d"}, Table: []float64{3, 1, 1, 3}}, {For: "d"}, {For: "u", Given: []string{"c"}, Table: []float64{1, 5}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := n.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	if _, _, err := n.SolveQuery(map[string]string{"d": "x"}, []string{"c"}, true); err != nil {
		t.Fatal(err)
	}
	r, _, err := n.SolveQuery(nil, []string{"c"}, false)
	if err != nil || !near(r["c"][0], 0.25) {
		t.Fatal(r, err)
	}
}
''', "a request with evidence on a decision and policies ignored, then a request without that evidence", "a request changes which policies are in force for later ones")

seed("s03", "C03", [("network.go", '''		weights[i] = table[idx]
''', '''		weights[idx] = table[idx]
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: yn}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}, {Name: "w", NodeType: ve.UtilityNode, Outcomes: []string{"w"}},
		{Name: "t", NodeType: ve.UtilityNode, Outcomes: yn}},
		[]Factor{{For: "a", Table: []float64{1, 1}}, {For: "u", Given: []string{"a"}, Table: []float64{1, 1}}, {For: "w", Given: []string{"a"}, Table: []float64{10, 10}},
			{For: "t", Given: []string{"w", "u"}, Table: []float64{2, 3}}})
	if err != nil {
		t.Fatal(err)
	}
	f, err := n.SolveUtility(nil, nil, "", false)
	if err != nil || !near(f.Data()[0], 23) {
		t.Fatal(f, err)
	}
}
''', "a total-utility node whose parents are listed in another order than the utility nodes are declared", "weights are assigned to the wrong utility nodes")

seed("s04", "C11", [("ve/variables.go", '''			} else if u == maxUtility {
				maxIndices = append(maxIndices, c)
''', '''			} else if u == maxUtility && len(maxIndices) < cap(maxIndices) {
				maxIndices = append(maxIndices, c)
''')], "ve", '''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	d := v.AddVariable(0, DecisionNode, 10)
	f := v.CreateFactor([]Variable{d}, []float64{1, 1, 1, 1, 1, 1, 1, 1, 1, 0})
	p := v.Policy(&f, d)
	if p.Data()[8] != 1.0/9 {
		t.Fatal(p.Data())
	}
}
''', "more than eight equally good options", "policy not spread over all the best options")

seed("s05", "C06", [("network.go", '''		if _, isEvidence := evidence[name]; isEvidence {
			continue
		}
		// collect variables
''', '''		if len(evidence) > 0 {
			if _, isEvidence := evidence[f.name(n)]; isEvidence {
				continue
			}
		}
		// collect variables
''')] if False else [("network.go", '''	for name, f := range n.policies {
		// if decision variable''', '''	for i := range varIDs {
		name := varIDs[i].Variable.Name
		f, ok := n.policies[name]
		if !ok {
			continue
		}
		// if decision variable'''), ("network.go", '''		if _, isEvidence := evidence[name]; isEvidence {
			continue
		}
		// collect variables
''', '''		if _, isEvidence := evidence[name]; isEvidence {
			break
		}
		// collect variables
''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	n, err := New("n", "", []Variable{{Name: "c", Outcomes: yn}, {Name: "d", NodeType: ve.DecisionNode, Outcomes: yn}, {Name: "e", NodeType: ve.DecisionNode, Outcomes: yn}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}},
		[]Factor{{For: "c", Given: []string{"d"}, Table: []float64{3, 1, 1, 3}}, {For: "d"}, {For: "e", Given: []string{"d", "c"}},
			{For: "u", Given: []string{"c", "e"}, Table: []float64{1, 5, 9, 2}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := n.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	r, _, err := n.SolveQuery(map[string]string{"d": "x", "c": "x"}, []string{"e"}, true)
	if err != nil || !near(r["e"][1], 1) {
		t.Fatal(r, err)
	}
}
''', "two solved decisions, evidence on the earlier one and policies ignored", "the later decision no longer follows its policy")

seed("s06", "C08", [("ve/variables.go", '''	newVars := []Variable{}
	maps := make([][]int, len(factors))
''', '''	if len(factors) == 2 && len(factors[0].variables) == len(factors[1].variables) && sameVariables(factors[0], factors[1]) {
		f := v.CreateFactor(factors[0].variables, append([]float64{}, factors[0].data...))
		for i, x := range factors[1].data {
			f.data[i] *= x
		}
		return f
	}

	newVars := []Variable{}
	maps := make([][]int, len(factors))
'''), ("ve/variables.go", '''// Product multiplies factors.
''', '''func sameVariables(a, b *Factor) bool {
	for _, v := range a.variables {
		if !slices.Contains(b.variables, v) {
			return false
		}
	}
	return true
}

// Product multiplies factors.
''')], "ve", '''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	a := v.AddVariable(0, ChanceNode, 2)
	b := v.AddVariable(1, ChanceNode, 2)
	f := v.CreateFactor([]Variable{a, b}, []float64{1, 2, 3, 4})
	g := v.CreateFactor([]Variable{b, a}, []float64{1, 10, 100, 1000})
	p := v.Product(&f, &g)
	if p.Get([]int{0, 1}) != 200 {
		t.Fatal(p.Data())
	}
}
''', "two factors over the same variables in different order", "values of different outcome combinations are multiplied")

seed("s07", "C13", [("logic/count.go", '''		count := given - bits.OnesCount(i)
		if''', '''		count := given - bits.OnesCount8(uint8(i))
		if''')], "logic", '''
package logic

import "testing"

func TestDemo(t *testing.T) {
	table, err := CountIs(0).Table(9)
	if err != nil || table[2*511] != 1 {
		t.Fatal(err)
	}
}
''', "more than eight parents", "parents beyond the eighth are not counted")

seed("s08", "C12", [("logic/simple.go", '''	return append([]float64{}, arr...), nil
''', '''	return arr, nil
''')], "logic", '''
package logic

import "testing"

func TestDemo(t *testing.T) {
	f, _ := Get("if-then")
	table, err := f.Table(1)
	if err != nil {
		t.Fatal(err)
	}
	table[0] = 7
	again, _ := IfThen().Table(1)
	if again[0] != 1 {
		t.Fatal(again)
	}
}
''', "an if-then table that is modified, then obtained again", "a table handed out is the operator's own storage")

seed("s09", "C14", [("logic/outcome.go", '''	for _, idx := range f.Indices {
		table[idx*2] = 1
		table[idx*2+1] = 0
	}
''', '''	for _, idx := range f.Indices {
		table[idx*2], table[idx*2+1] = table[idx*2+1], table[idx*2]
	}
''')], "logic", '''
package logic

import "testing"

func TestDemo(t *testing.T) {
	table, err := OutcomeEither([]int{1, 1}, 3).Table(1)
	if err != nil || table[2] != 1 {
		t.Fatal(table, err)
	}
}
''', "an outcome listed twice", "an outcome among the given indices is not true")

seed("s10", "C10", [("ve/variables.go", '''		if sum == 0 {
			continue
		}
''', '''		if sum <= 0 {
			continue
		}
''')], "ve", '''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	a := v.AddVariable(0, ChanceNode, 2)
	f := v.CreateFactor([]Variable{a}, []float64{-1, -3})
	p := v.NormalizeFor(&f, a)
	if p.Data()[1] != 0.75 {
		t.Fatal(p.Data())
	}
}
''', "a row with negative sum", "the row is not normalised")
seed("s11", "C04", [("ve/ve.go", '''				if ve.weights != nil {
					ff''', '''				if ve.weights != nil && ve.weights[i] > 0 {
					ff''')], ".", NET + '''
func TestDemo(t *testing.T) {
	yn := []string{"x", "y"}
	n, err := New("n", "", []Variable{{Name: "d", NodeType: ve.DecisionNode, Outcomes: yn}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}, {Name: "w", NodeType: ve.UtilityNode, Outcomes: []string{"w"}},
		{Name: "t", NodeType: ve.UtilityNode, Outcomes: yn}},
		[]Factor{{For: "d"}, {For: "u", Given: []string{"d"}, Table: []float64{1, 2}}, {For: "w", Given: []string{"d"}, Table: []float64{1, 5}},
			{For: "t", Given: []string{"u", "w"}, Table: []float64{1, -1}}})
	if err != nil {
		t.Fatal(err)
	}
	p, err := n.SolvePolicies(false)
	if err != nil || p["d"].Table[0] != 1 {
		t.Fatal(p, err)
	}
}
''', "a total-utility node with a negative or zero weight (a cost)", "the policy does not maximise the weighted utility")
seed("s12", "C09", [("ve/variables.go", '''		if oldIndex[idx] == observation {
			for j := 0''', '''		if oldIndex[idx] == observation && v != 0 {
			for j := 0'''),("ve/variables.go", '''			fNew.Set(newIndex, v)
''','''			fNew.Set(newIndex, math.Abs(v))
''')], "ve", '''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	a := v.AddVariable(0, ChanceNode, 2)
	b := v.AddVariable(1, ChanceNode, 2)
	f := v.CreateFactor([]Variable{a, b}, []float64{-1, 3, 5, -7})
	p := v.Restrict(&f, a, 1)
	if p.Data()[1] != -7 {
		t.Fatal(p.Data())
	}
}
''', "a factor with negative values, as utilities have", "restriction changes the sign of kept values")
