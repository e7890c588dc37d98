package h

import (
	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["Build2"] = Build2
	All["Build3"] = Build3
	All["BuildTotal"] = BuildTotal
	All["BuildNames"] = BuildNames
	All["EvidenceNames"] = EvidenceNames
	All["QueryNames"] = QueryNames
	All["UtilityNames"] = UtilityNames
	All["ToEvidence"] = ToEvidence
}

// bnode is a node to be built; names are arbitrary bytes, the type is arbitrary.
type bnode struct {
	name    string
	typ     int
	outs    int
	parents []string
	factor  bool
}

func anyName(label string) string { return vh.Str(label, 1, 0, 255) }
func anyType() int                { return vh.Int("type", 0, 2) }

// ntype turns a symbolic number into a node type.
func ntype(t int) ve.NodeType {
	return ve.NodeType(vh.Ite(t == 2, int(ve.UtilityNode), vh.Ite(t == 1, int(ve.DecisionNode), int(ve.ChanceNode))))
}

// checkBuild builds the network and compares the outcome with the rules.
func checkBuild(nodes []bnode) {
	vars := make([]bbn.Variable, len(nodes))
	var facs []bbn.Factor
	for i, n := range nodes {
		vars[i] = bbn.Variable{Name: n.name, NodeType: ntype(n.typ), Outcomes: outNames(n.outs)}
		if n.factor {
			rows := 1
			for range n.parents {
				rows *= 2
			}
			facs = append([]bbn.Factor{{For: n.name, Given: n.parents, Table: make([]float64, rows*n.outs)}}, facs...)
		}
	}
	net, err := bbn.New("net", "", vars, facs)

	ok, totals, total := true, 0, -1
	for i := range nodes {
		for j := range nodes[:i] {
			ok = vh.And(ok, nodes[i].name != nodes[j].name)
		}
	}
	for i, n := range nodes {
		isU := n.typ == 2
		if !n.factor {
			ok = vh.And(ok, !isU)
			continue
		}
		anyU, anyO := false, false
		for _, p := range n.parents {
			found := false
			for _, m := range nodes {
				is := m.name == p
				found = vh.Or(found, is)
				anyU = vh.Or(anyU, vh.And(is, m.typ == 2))
				anyO = vh.Or(anyO, vh.And(is, m.typ != 2))
			}
			ok = vh.And(ok, found)
		}
		if len(n.parents) == 0 {
			ok = vh.And(ok, !isU)
		}
		ok = vh.And(ok, !vh.And(isU, vh.And(anyU, anyO)))
		isTotal := vh.And(isU, anyU)
		totals = vh.Ite(isTotal, totals+1, totals)
		total = vh.Ite(isTotal, i, total)
		if n.outs != len(n.parents) {
			ok = vh.And(ok, !isTotal)
		}
	}
	ok = vh.And(ok, totals <= 1)
	if err != nil {
		vh.Assert(!ok, "a well-formed network is built")
		vh.Reach("rejected")
		return
	}
	vh.Assert(ok, "an ill-formed network is rejected")
	vh.Assert(net.TotalUtilityIndex() == total, "total-utility node")
	vs := net.Variables()
	vh.Assert(len(vs) == len(nodes), "number of variables")
	for i, n := range nodes {
		vh.Assert(vs[i].Name == n.name, "variables keep their order")
		vh.Assert((vs[i].Factor != nil) == n.factor, "every variable gets its table")
		if n.factor {
			vh.Assert(vs[i].Factor.For == n.name, "every variable gets its own table")
		}
	}
	vh.Reach("built")
}

// Build2: two nodes with up to two parents each.
func Build2() {
	nodes := make([]bnode, 1+vh.Choose("nodes", 2))
	for i := range nodes {
		n := bnode{name: anyName("name"), typ: anyType(), outs: vh.Choose("outs", 3), factor: true}
		k := vh.Choose("parents", 4)
		if k == 3 {
			n.factor = false
		} else {
			for j := 0; j < k; j++ {
				n.parents = append(n.parents, anyName("parent"))
			}
		}
		nodes[i] = n
	}
	checkBuild(nodes)
}

// Build3: three nodes with one parent each at most.
func Build3() {
	nodes := make([]bnode, 3)
	for i := range nodes {
		n := bnode{name: anyName("name"), typ: anyType(), outs: 1, factor: true}
		k := vh.Choose("parents", 3)
		if k == 2 {
			n.factor = false
		} else {
			for j := 0; j < k; j++ {
				n.parents = append(n.parents, anyName("parent"))
			}
		}
		nodes[i] = n
	}
	checkBuild(nodes)
}

// BuildTotal: a chance node and nodes of any type, names given, parents any of them; the last ones have two or three parents.
func BuildTotal() {
	names := []string{"a", "u", "v", "w", "x"}
	n := 4 + vh.Choose("nodes", deep(1, 2))
	nodes := make([]bnode, n)
	for i := range nodes {
		nodes[i] = bnode{name: names[i], outs: 1, factor: true}
		switch i {
		case 0:
			nodes[i].outs = 2
		case 1:
			nodes[i].typ = anyType()
			nodes[i].parents = []string{"a"}
		case 2:
			nodes[i].typ = anyType()
			nodes[i].parents = []string{vh.Str("parent", 1, 'a', 'y')}
		default:
			nodes[i].typ = anyType()
			nodes[i].outs = 1 + vh.Choose("outs", 3)
			k := 2 + vh.Choose("parents", deep(1, 2))
			for j := 0; j < k; j++ {
				nodes[i].parents = append(nodes[i].parents, vh.Str("parent", 1, 'a', 'y'))
			}
		}
	}
	if vh.Choose("order", 2) == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			nodes[i], nodes[j] = nodes[j], nodes[i]
		}
	}
	checkBuild(nodes)
}

// BuildNames: names of several bytes, also empty ones.
func BuildNames() {
	nodes := make([]bnode, 2)
	for i := range nodes {
		nodes[i] = bnode{name: vh.Str("name", vh.Choose("len", 4), 0, 255), typ: anyType(), outs: 1, factor: true}
	}
	nodes[1].parents = []string{vh.Str("parent", vh.Choose("len", 4), 0, 255)}
	checkBuild(nodes)
}

// ---- names in requests

// nnet: ab (p, qr) -> c (p, q, r), a decision d, a utility u.
func nnet() (*bbn.Network, []float64, []float64) {
	pa := []float64{0.25, 0.75}
	pc := []float64{0.5, 0.25, 0.25, 0.125, 0.125, 0.75}
	vars := []bbn.Variable{
		{Name: "c", Outcomes: []string{"p", "", "qr"}},
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"p", "x"}},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
		{Name: "ab", Outcomes: []string{"p", "qr"}},
	}
	facs := []bbn.Factor{
		{For: "ab", Table: pa},
		{For: "c", Given: []string{"ab"}, Table: pc},
		{For: "d"},
		{For: "u", Given: []string{"c", "d"}, Table: []float64{1, 2, 3, 4, 5, 6}},
	}
	switch vh.Choose("variant", 3) {
	case 1:
		// a decision without an entry among the tables
		facs = append(facs[:2:2], facs[3])
	case 2:
		// a total-utility node
		vars = append([]bbn.Variable{{Name: "t", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}}, vars...)
		facs = append(facs, bbn.Factor{For: "t", Given: []string{"u"}, Table: []float64{1}})
	}
	net, err := bbn.New("net", "", vars, facs)
	noErr(err, "building")
	return net, pa, pc
}

// prepare brings the network into one of its states.
func prepare(net *bbn.Network) {
	switch vh.Choose("before", 5) {
	case 1:
		_, err := net.SolvePolicies(true)
		noErr(err, "policies")
	case 2:
		_, _, err := net.SolveQuery(map[string]string{"c": "qr"}, []string{"ab"}, true)
		noErr(err, "query")
	case 3:
		_, _, err := net.SolveQuery(map[string]string{"nobody": "q"}, []string{"ab"}, true)
		vh.Assert(err != nil, "unknown evidence is reported")
	case 4:
		_, err := net.SolveUtility(nil, nil, "u", true)
		noErr(err, "utility")
	}
}

var nouts = map[string][]string{"ab": {"p", "qr"}, "c": {"p", "", "qr"}, "d": {"p", "x"}}

// posOf is the position of an outcome, -1 if there is none, without branching.
func posOf(outs []string, o string) int {
	at := -1
	for i, x := range outs {
		at = vh.Ite(x == o, i, at)
	}
	return at
}

// EvidenceNames: evidence with any name and value.
func EvidenceNames() {
	net, pa, pc := nnet()
	prepare(net)
	name := vh.Str("name", vh.Choose("len", 4), 0, 255)
	value := vh.Str("value", vh.Choose("len", 4), 0, 255)
	// evidence for the single outcome of a utility has no stated meaning
	vh.Assume(vh.Or(name != "u", value != "u"))
	ea, ec, ed := vh.And(name == "ab", posOf(nouts["ab"], value) >= 0), vh.And(name == "c", posOf(nouts["c"], value) >= 0), vh.And(name == "d", posOf(nouts["d"], value) >= 0)
	valid := vh.Or(ea, vh.Or(ec, ed))
	ev := map[string]string{name: value}
	if vh.Choose("more", 2) == 1 {
		// further evidence that is fine
		vh.Assume(name != "d")
		ev["d"] = "x"
	}
	if vh.Choose("utility", 2) == 1 {
		_, err := net.SolveUtility(ev, nil, "", true)
		if err != nil {
			vh.Assert(!valid, "valid evidence is accepted")
			vh.Reach("rejected")
		} else {
			vh.Assert(valid, "wrong evidence is reported")
			vh.Reach("accepted")
		}
		return
	}
	res, f, err := net.SolveQuery(ev, []string{"c"}, true)
	if err != nil {
		vh.Assert(!valid, "valid evidence is accepted")
		vh.Assert(res == nil && f == nil, "no answer with an error")
		vh.Reach("rejected")
		return
	}
	vh.Assert(valid, "wrong evidence is reported")
	vh.Assert(len(res["c"]) == 3, "size of the answer")
	for k := 0; k < 3; k++ {
		prior := pa[0]*pc[k] + pa[1]*pc[3+k]
		post := vh.IteF(ea, vh.IteF(posOf(nouts["ab"], value) == 0, pc[k], pc[3+k]), vh.IteF(ec, vh.IteF(posOf(nouts["c"], value) == k, 1, 0), prior))
		vh.EqF(res["c"][k], post, "answer for that evidence")
	}
	vh.Reach("accepted")
}

// QueryNames: queries with any name.
func QueryNames() {
	net, pa, pc := nnet()
	prepare(net)
	name := vh.Str("name", vh.Choose("len", 4), 0, 255)
	vh.Assume(name != "u")
	vh.Assume(name != "d")
	query := []string{name}
	switch vh.Choose("more", 3) {
	case 1:
		vh.Assume(name != "c")
		query = []string{"c", name}
	case 2:
		vh.Assume(name != "ab")
		query = []string{name, "ab"}
	}
	res, f, err := net.SolveQuery(nil, query, true)
	valid := vh.Or(name == "ab", name == "c")
	if err != nil {
		vh.Assert(!valid, "valid names are accepted")
		vh.Assert(res == nil && f == nil, "no answer with an error")
		vh.Reach("rejected")
		return
	}
	if name == "t" && net.TotalUtilityIndex() >= 0 {
		vh.Assert(res["t"] != nil, "a name is not ignored")
		return
	}
	vh.Assert(valid, "unknown names are reported")
	vh.Assert(len(res) == len(query), "an answer for every name")
	if name == "ab" {
		sameData(res["ab"], pa, "answer for that name")
	} else {
		sameData(res["c"], []float64{pa[0]*pc[0] + pa[1]*pc[3], pa[0]*pc[1] + pa[1]*pc[4], pa[0]*pc[2] + pa[1]*pc[5]}, "answer for that name")
	}
	vh.Reach("accepted")
}

// UtilityNames: names in utility requests.
func UtilityNames() {
	net, _, _ := nnet()
	prepare(net)
	name := vh.Str("name", vh.Choose("len", 4), 0, 255)
	for _, n := range []string{"ab", "c", "d"} {
		vh.Assume(name != n)
	}
	want, err := net.SolveUtility(map[string]string{"d": "x"}, nil, "u", true)
	noErr(err, "utility")
	f, err := net.SolveUtility(map[string]string{"d": "x"}, nil, name, true)
	valid := vh.Or(name == "u", name == "")
	if net.TotalUtilityIndex() >= 0 && err == nil {
		// the weight is 1
		valid = vh.Or(valid, name == "t")
	}
	if err != nil {
		vh.Assert(!valid, "valid names are accepted")
		vh.Reach("rejected")
	} else {
		vh.Assert(valid, "unknown names are reported")
		sameData(f.Data(), want.Data(), "the utility of that node")
		vh.Reach("accepted")
	}
	q := vh.Str("query", vh.Choose("len", 4), 0, 255)
	for _, n := range []string{"u", "d", "t"} {
		vh.Assume(q != n)
	}
	_, err = net.SolveUtility(nil, []string{q}, "", true)
	if err != nil {
		vh.Assert(!vh.Or(q == "ab", q == "c"), "valid query names are accepted")
	} else {
		vh.Assert(vh.Or(q == "ab", q == "c"), "unknown query names are reported")
	}
}

// ToEvidence: one-hot distributions at any time.
func ToEvidence() {
	net, _, _ := nnet()
	prepare(net)
	name := vh.Str("name", vh.Choose("len", 4), 0, 255)
	value := vh.Str("value", vh.Choose("len", 4), 0, 255)
	vh.Assume(name != "u" && name != "t")
	p, err := net.ToEvidence(name, value)
	for n, outs := range nouts {
		if name != n {
			continue
		}
		at := posOf(outs, value)
		if err != nil {
			vh.Assert(at < 0, "valid evidence is accepted")
			vh.Reach("rejected")
			return
		}
		vh.Assert(at >= 0, "unknown outcomes are reported")
		vh.Assert(len(p) == len(outs), "size of the distribution")
		for k := range outs {
			vh.EqF(p[k], vh.IteF(at == k, 1, 0), "one at the outcome, zero elsewhere")
		}
		vh.Reach("accepted")
		return
	}
	vh.Assert(err != nil, "unknown variables are reported")
}
