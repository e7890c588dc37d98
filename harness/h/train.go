package h

import (
	"math"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["TrainChance"] = TrainChance
	All["TrainParents"] = TrainParents
	All["TrainUtility"] = TrainUtility
	All["TrainMany"] = TrainMany
	All["TrainQuery"] = TrainQuery
	All["TrainBare"] = TrainBare
	All["TrainLoaded"] = TrainLoaded
	All["TrainLarge"] = TrainLarge
}

// tnode is a node of a network to be trained. Parents are indices of nodes.
type tnode struct {
	name    string
	typ     ve.NodeType
	outs    []string
	parents []int
	weights []float64 // of a weighting node
}

// tnet is a network to be trained, with the samples seen so far.
type tnet struct {
	nodes   []tnode
	samples [][]int
	utils   [][]float64
}

func newTnet(nodes ...tnode) *tnet { return &tnet{nodes: nodes} }

func (t *tnet) rows(i int) int {
	r := 1
	for _, p := range t.nodes[i].parents {
		r *= len(t.nodes[p].outs)
	}
	return r
}

func (t *tnet) build() *bbn.Network {
	vars := make([]bbn.Variable, len(t.nodes))
	var facs []bbn.Factor
	for i, n := range t.nodes {
		vars[i] = bbn.Variable{Name: n.name, NodeType: n.typ, Outcomes: n.outs}
		f := bbn.Factor{For: n.name}
		for _, p := range n.parents {
			f.Given = append(f.Given, t.nodes[p].name)
		}
		switch {
		case n.weights != nil:
			f.Table = append([]float64(nil), n.weights...)
		case n.typ != ve.DecisionNode:
			f.Table = make([]float64, t.rows(i)*len(n.outs))
			for j := range f.Table {
				f.Table[j] = 7
			}
		}
		// factors in another order than the variables
		facs = append([]bbn.Factor{f}, facs...)
	}
	net, err := bbn.New("net 5%d", "about 7%", vars, facs)
	noErr(err, "building")
	return net
}

// add remembers a sample; -1 and NaN are missing values.
func (t *tnet) add(sample []int, utility []float64) {
	t.samples = append(t.samples, append([]int(nil), sample...))
	t.utils = append(t.utils, append([]float64(nil), utility...))
}

// row gives the number of usable samples in a table row of a node and the sums in its columns. The samples are symbolic,
// so nothing branches on them.
func (t *tnet) row(i, row int) (float64, []float64) {
	n := t.nodes[i]
	at := make([]int, len(n.parents)) // outcomes of the parents
	for k, r := len(at)-1, row; k >= 0; k-- {
		m := len(t.nodes[n.parents[k]].outs)
		at[k], r = r%m, r/m
	}
	count, sum := 0.0, make([]float64, len(n.outs))
	for s, sample := range t.samples {
		here := true
		for k, p := range n.parents {
			here = vh.And(here, sample[p] == at[k])
		}
		if n.typ == ve.UtilityNode {
			if u := t.utils[s][i]; !math.IsNaN(u) {
				count += vh.IteF(here, 1, 0)
				sum[0] += vh.IteF(here, u, 0)
			}
			continue
		}
		count += vh.IteF(vh.And(here, sample[i] >= 0), 1, 0)
		for k := range sum {
			sum[k] += vh.IteF(vh.And(here, sample[i] == k), 1, 0)
		}
	}
	return count, sum
}

// check compares the trained tables.
func (t *tnet) check(net *bbn.Network, err error) bool {
	complete := true
	for i, n := range t.nodes {
		if n.typ == ve.DecisionNode || n.weights != nil {
			continue
		}
		for j := 0; j < t.rows(i); j++ {
			count, _ := t.row(i, j)
			complete = vh.And(complete, count > 0.5)
		}
	}
	if err != nil {
		vh.Assert(!complete, "training succeeds when every row has a usable sample")
		vh.Reach("incomplete")
		return false
	}
	vh.Assert(complete, "missing data is reported")
	for i, n := range t.nodes {
		v := net.Variables()[i]
		vh.Assert(v.Name == n.name, "variable keeps its place")
		if n.typ == ve.DecisionNode {
			vh.Assert(v.Factor == nil || len(v.Factor.Table) == 0, "decisions are not trained")
			continue
		}
		if n.weights != nil {
			sameData(v.Factor.Table, n.weights, "weights are not trained")
			continue
		}
		cols := len(n.outs)
		vh.Assert(len(v.Factor.Table) == t.rows(i)*cols, "size of the table")
		for j := 0; j < t.rows(i); j++ {
			count, sum := t.row(i, j)
			for k := range sum {
				vh.EqF(v.Factor.Table[j*cols+k]*count, sum[k], "trained table")
			}
		}
	}
	vh.Reach("trained")
	return true
}

// trainer feeds samples through slices that are used again for every sample.
type feeder struct {
	t       *tnet
	tr      bbn.Trainer
	sample  []int
	utility []float64
}

func newFeeder(t *tnet, net *bbn.Network) *feeder {
	return &feeder{t, bbn.NewTrainer(net), make([]int, len(t.nodes)), make([]float64, len(t.nodes))}
}

func (f *feeder) add(sample []int, utility []float64) {
	f.t.add(sample, utility)
	copy(f.sample, sample)
	copy(f.utility, utility)
	f.tr.AddSample(f.sample, f.utility)
}

// anyOf is any outcome or a missing value.
func anyOf(n int) int { return vh.Int("value", -1, n-1) }

// TrainChance: chance nodes, any samples.
func TrainChance() {
	var t *tnet
	switch vh.Choose("shape", 4) {
	case 3: // a node with one outcome
		t = newTnet(tnode{name: "a", outs: outNames(2)}, tnode{name: "b", outs: outNames(1), parents: []int{0}})
	case 0:
		t = newTnet(tnode{name: "a", outs: outNames(2)}, tnode{name: "b", outs: outNames(3), parents: []int{0}})
	case 1:
		t = newTnet(tnode{name: "b", outs: outNames(2), parents: []int{1}}, tnode{name: "a", outs: outNames(2)})
	case 2:
		t = newTnet(tnode{name: "a", outs: outNames(4)})
	}
	net := t.build()
	f := newFeeder(t, net)
	k := deep(4, 5)
	if t.nodes[0].name == "a" && len(t.nodes) == 2 {
		k = deep(3, 4)
	}
	n := vh.Choose("samples", k+1)
	for i := 0; i < n; i++ {
		s := make([]int, len(t.nodes))
		for j := range s {
			s[j] = anyOf(len(t.nodes[j].outs))
		}
		f.add(s, nil)
	}
	net2, err := f.tr.UpdateNetwork()
	if t.check(net2, err) {
		vh.Assert(net2 == net, "the network itself is trained")
	}
}

// TrainParents: the table row follows the order of the parents; every row has been seen once or twice before.
func TrainParents() {
	sizes := [][]int{{2, 3, 2}, {3, 2, 2}, {2, 2, 3}}[vh.Choose("sizes", 3)]
	perm := perms3()[vh.Choose("parents", 6)]
	t := newTnet(
		tnode{name: "x", outs: outNames(2), parents: []int{perm[0] + 1, perm[1] + 1, perm[2] + 1}},
		tnode{name: "a", outs: outNames(sizes[0])},
		tnode{name: "b", outs: outNames(sizes[1])},
		tnode{name: "c", outs: outNames(sizes[2])})
	net := t.build()
	f := newFeeder(t, net)
	for a := 0; a < sizes[0]; a++ {
		for b := 0; b < sizes[1]; b++ {
			for c := 0; c < sizes[2]; c++ {
				f.add([]int{(a + b + c) % 2, a, b, c}, nil)
			}
		}
	}
	for i := 0; i < deep(1, 2); i++ {
		f.add([]int{anyOf(2), anyOf(sizes[0]), anyOf(sizes[1]), anyOf(sizes[2])}, nil)
	}
	net2, err := f.tr.UpdateNetwork()
	vh.Assert(t.check(net2, err), "every row has samples")
}

func perms3() [][]int {
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
}

// utilNet has a chance node, a decision, two utilities and possibly their weights.
func utilNet(order int, weighted bool) *tnet {
	ns := []tnode{
		{name: "a", outs: outNames(2)},
		{name: "d", typ: ve.DecisionNode, outs: outNames(2)},
		{name: "u", typ: ve.UtilityNode, outs: []string{"u"}},
		{name: "v", typ: ve.UtilityNode, outs: []string{"v"}},
	}
	parents := map[string][]string{"u": {"a", "d"}, "v": {"d"}}
	if weighted {
		ns = append(ns, tnode{name: "w", typ: ve.UtilityNode, outs: []string{"u", "v"}, weights: []float64{vh.Real("w1"), vh.Real("w2")}})
		parents["w"] = []string{"u", "v"}
	}
	if order == 1 {
		for i, j := 0, len(ns)-1; i < j; i, j = i+1, j-1 {
			ns[i], ns[j] = ns[j], ns[i]
		}
	}
	for i := range ns {
		for _, p := range parents[ns[i].name] {
			for j := range ns {
				if ns[j].name == p {
					ns[i].parents = append(ns[i].parents, j)
				}
			}
		}
	}
	return newTnet(ns...)
}

func (t *tnet) sampleOf(vals map[string]int, u, v float64) ([]int, []float64) {
	s := make([]int, len(t.nodes))
	x := make([]float64, len(t.nodes))
	for i, n := range t.nodes {
		s[i] = vals[n.name]
		switch n.name {
		case "u":
			x[i] = u
		case "v":
			x[i] = v
		case "w":
			x[i] = 5
		}
	}
	return s, x
}

func maybe(label string) float64 {
	if vh.Choose("missing", 2) == 1 {
		return math.NaN()
	}
	return vh.Real(label)
}

// TrainUtility: mean utilities for any values and any pattern of missing ones.
func TrainUtility() {
	t := utilNet(vh.Choose("order", 2), vh.Choose("weighted", 2) == 1)
	net := t.build()
	f := newFeeder(t, net)
	if vh.Choose("covered", 2) == 1 {
		for i := 0; i < 4; i++ {
			s, x := t.sampleOf(map[string]int{"a": i / 2, "d": i % 2}, vh.Real("u"), vh.Real("v"))
			f.add(s, x)
		}
	}
	for i := 0; i < deep(2, 3); i++ {
		s, x := t.sampleOf(map[string]int{"a": anyOf(2), "d": anyOf(2)}, maybe("u"), maybe("v"))
		f.add(s, x)
	}
	net2, err := f.tr.UpdateNetwork()
	t.check(net2, err)
}

// TrainMany: as many symbolic utilities in one row as wanted, and training that goes on after an update.
func TrainMany() {
	t := utilNet(0, false)
	net := t.build()
	f := newFeeder(t, net)
	n := deep(12, 24)
	for i := 0; i < n; i++ {
		s, x := t.sampleOf(map[string]int{"a": i / 2 % 2, "d": i % 2}, vh.Real("u"), vh.Real("v"))
		f.add(s, x)
		if i == 3 && vh.Choose("between", 2) == 1 {
			net2, err := f.tr.UpdateNetwork()
			t.check(net2, err)
		}
	}
	s, x := t.sampleOf(map[string]int{"a": anyOf(2), "d": anyOf(2)}, maybe("u"), maybe("v"))
	f.add(s, x)
	net2, err := f.tr.UpdateNetwork()
	vh.Assert(t.check(net2, err), "every row has samples")
	net2, err = f.tr.UpdateNetwork()
	vh.Assert(t.check(net2, err), "a second update changes nothing")
}

// TrainLarge: some hundred samples.
func TrainLarge() {
	t := newTnet(tnode{name: "b", outs: outNames(2), parents: []int{1}}, tnode{name: "a", outs: outNames(2)},
		tnode{name: "u", typ: ve.UtilityNode, outs: []string{"u"}, parents: []int{1}})
	net := t.build()
	tr := bbn.NewTrainer(net)
	n := []int{200, 255, 256, 257, 300, 600}[vh.Choose("samples", 6)]
	u := vh.Real("u")
	cnt := [2]int{}
	b := [2][2]int{}
	sum := [2]float64{}
	for i := 0; i < n; i++ {
		a := 0
		if i%50 == 49 {
			a = 1
		}
		o := i / 3 % 2
		x := float64(i % 4)
		if i == n/2 {
			x = u
		}
		tr.AddSample([]int{o, a, 0}, []float64{0, 0, x})
		cnt[a]++
		b[a][o]++
		sum[a] += x
	}
	net, err := tr.UpdateNetwork()
	noErr(err, "training")
	v := net.Variables()
	for a := 0; a < 2; a++ {
		vh.EqF(v[1].Factor.Table[a]*float64(n), float64(cnt[a]), "trained table")
		for o := 0; o < 2; o++ {
			vh.EqF(v[0].Factor.Table[a*2+o]*float64(cnt[a]), float64(b[a][o]), "trained table")
		}
		vh.EqF(v[2].Factor.Table[a]*float64(cnt[a]), sum[a], "mean utility")
	}
	vh.Reach("trained")
}

// TrainQuery: a trained network answers with the trained tables.
func TrainQuery() {
	t := newTnet(tnode{name: "b", outs: outNames(3), parents: []int{1}}, tnode{name: "a", outs: outNames(2)})
	net := t.build()
	f := newFeeder(t, net)
	f.add([]int{0, 0}, nil)
	f.add([]int{2, 1}, nil)
	for i := 0; i < deep(2, 3); i++ {
		f.add([]int{vh.Int("b", 0, 2), vh.Int("a", 0, 1)}, nil)
	}
	net2, err := f.tr.UpdateNetwork()
	vh.Assert(t.check(net2, err), "every row has samples")
	res, _, err := net2.SolveQuery(nil, []string{"b"}, false)
	noErr(err, "query")
	n := float64(len(t.samples))
	for k := 0; k < 3; k++ {
		all := 0.0
		for _, s := range t.samples {
			all += vh.IteF(s[0] == k, 1, 0)
		}
		vh.EqF(res["b"][k]*n, all, "marginal equals the frequency in the samples")
	}
	for a := 0; a < 2; a++ {
		res, _, err := net2.SolveQuery(map[string]string{"a": outNames(2)[a]}, []string{"b"}, false)
		noErr(err, "query")
		count, sum := t.row(0, a)
		for k := 0; k < 3; k++ {
			vh.EqF(res["b"][k]*count, sum[k], "conditional frequency")
		}
	}
}

// TrainBare: a decision without an entry among the factors.
func TrainBare() {
	vars := []bbn.Variable{
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: outNames(2)},
		{Name: "a", Outcomes: outNames(2)},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
	}
	facs := []bbn.Factor{{For: "u", Given: []string{"a", "d"}, Table: make([]float64, 4)}, {For: "a", Given: []string{"d"}, Table: make([]float64, 4)}}
	net, err := bbn.New("net 5%d", "about 7%", vars, facs)
	noErr(err, "building")
	tr := bbn.NewTrainer(net)
	var us []float64
	for i := 0; i < 4; i++ {
		u := vh.Real("u")
		us = append(us, u)
		tr.AddSample([]int{i % 2, i / 2, 0}, []float64{0, 0, u})
	}
	net2, err := tr.UpdateNetwork()
	noErr(err, "training succeeds")
	sameData(net2.Variables()[1].Factor.Table, []float64{0.5, 0.5, 0.5, 0.5}, "trained table")
	sameData(net2.Variables()[2].Factor.Table, us, "trained utilities")
	vh.Reach("end")
}

// TrainLoaded: networks loaded from documents, with nodes that have the same logic or the same table.
func TrainLoaded() {
	ops := []string{"not", "equals", "count-is 1", "outcome-is 0 2", "bits", ""}
	op := ops[vh.Choose("op", len(ops))]
	t := newTnet(tnode{name: "a", outs: outNames(2)}, tnode{name: "b", outs: outNames(2), parents: []int{0}}, tnode{name: "c", outs: outNames(2), parents: []int{0}})
	var net *bbn.Network
	var err error
	if vh.Choose("format", 2) == 0 {
		vars := []dvar{{name: "a", outs: outNames(2), rows: [][]float64{{1, 1}}}}
		for _, name := range []string{"b", "c"} {
			v := dvar{name: name, outs: outNames(2), given: []string{"a"}, logic: op}
			if op == "" {
				v.rows = [][]float64{{1, 0}, {0, 1}}
			}
			vars = append(vars, v)
		}
		net, err = bbn.FromYAML([]byte(yamlDoc("net", "", vars, false)))
	} else {
		vh.Assume(op == "")
		a := dvar{name: "a", typ: "nature", outs: outNames(2)}
		b, c := dvar{name: "b", typ: "nature", outs: outNames(2), given: []string{"a"}}, dvar{name: "c", typ: "nature", outs: outNames(2), given: []string{"a"}}
		net, err = bbn.FromBIFXML(xmlDoc(xmlVar(a, nil) + xmlVar(b, nil) + xmlVar(c, nil) + xmlDef(a, []string{"1", "1"}) + xmlDef(b, []string{"1", "0", "0", "1"}) + xmlDef(c, []string{"1", "0", "0", "1"})))
	}
	noErr(err, "loading")
	f := newFeeder(t, net)
	f.add([]int{0, anyOf(2), anyOf(2)}, nil)
	f.add([]int{1, anyOf(2), anyOf(2)}, nil)
	f.add([]int{anyOf(2), anyOf(2), anyOf(2)}, nil)
	net2, err := f.tr.UpdateNetwork()
	t.check(net2, err)
}
