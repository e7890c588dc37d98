package h

import (
	"fmt"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["QueryLarge"] = QueryLarge
	All["UtilityLarge"] = UtilityLarge
	All["VeQuery"] = VeQuery
	All["VeUtility"] = VeUtility
	All["InForce3"] = InForce3
	All["FactorProductMany"] = FactorProductMany
	All["FactorReduceMany"] = FactorReduceMany
	All["FactorIndexMany"] = FactorIndexMany
	All["FactorRearrangeMany"] = FactorRearrangeMany
	All["FactorPolicyMany"] = FactorPolicyMany
	All["BuildMany"] = BuildMany
	All["NamesLong"] = NamesLong
}

// fixedRow is the r-th row of concrete probabilities for a node.
func fixedRow(i, r, cols int) []float64 {
	switch cols {
	case 1:
		return []float64{1}
	case 2:
		q := []float64{0.125, 0.75, 0.375, 0.5, 0.875, 0.25, 0.625}[(i+3*r)%7]
		return []float64{q, 1 - q}
	}
	out := make([]float64, cols)
	s := 0.0
	for c := range out {
		out[c] = float64(1 + (i+2*r+3*c*c)%5)
		s += out[c]
	}
	for c := range out {
		out[c] /= s
	}
	return out
}

// fixed fills the tables; the nodes in sym get an arbitrary distribution in row row (others: fixed numbers).
func (n *rnet) fixed(row int, sym ...int) {
	for i := range n.nodes {
		nd := &n.nodes[i]
		if nd.kind != ve.ChanceNode || nd.table != nil {
			continue
		}
		is := false
		for _, s := range sym {
			is = is || s == i
		}
		rows := n.rows(i)
		for r := 0; r < rows; r++ {
			if is && r == row%rows {
				nd.table = append(nd.table, vh.Dist(fmt.Sprintf("%s%d", nd.name, r), len(nd.outs))...)
			} else {
				nd.table = append(nd.table, fixedRow(i, r, len(nd.outs))...)
			}
		}
	}
}

func bigDag(sizes []int, parents [][]int) *rnet {
	n := &rnet{}
	for i, s := range sizes {
		n.nodes = append(n.nodes, rnode{name: fmt.Sprintf("N%d", (i*7+3)%11), kind: ve.ChanceNode, outs: outNames(s), parents: append([]int{}, parents[i]...)})
	}
	return n
}

var bigShapes = [][][]int{
	{{}, {}, {0}, {1}, {1}, {2, 3}, {5}, {4, 5}},                    // the "Asia" network
	{{}, {0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}},                    // a chain of nine
	{{}, {0}, {1}, {0}, {1, 3}, {2, 4}, {3}, {6, 4}, {5, 7}},        // a grid
	{{}, {}, {}, {}, {0, 1}, {2, 3}, {4, 5}, {6}, {6}},              // a tree towards one node, two children
	{{}, {0}, {0}, {1}, {1}, {2}, {2}, {3, 4, 5, 6}},                // a tree joined again
	{{}, {0}, {}, {2}, {}, {4}, {}, {6}},                            // four components
	{{}, {}, {}, {1, 0, 2}, {3, 0}, {3, 1}, {3, 2, 4}, {6, 0, 5}},   // dense
}

// QueryLarge: networks of eight and nine nodes, some probabilities arbitrary.
func QueryLarge() {
	sh := vh.Choose("shape", len(bigShapes))
	parents := bigShapes[sh]
	k := len(parents)
	sizes := make([]int, k)
	for i := range sizes {
		sizes[i] = 2
	}
	sizes[(sh+2)%k] = 3
	n := bigDag(sizes, parents)
	n.fixed(1, []int{0, k / 2}[vh.Choose("arbitrary", 2)], k-1)
	ev := none(k)
	var query []int
	switch vh.Choose("request", 6) {
	case 0:
		query = []int{k - 1}
	case 1:
		query = []int{0}
		ev[k-1] = 1
	case 2:
		query = []int{k / 2}
		ev[0], ev[k-1], ev[k-2], ev[1] = 1, 0, 1, 0
	case 3:
		query = []int{k - 1, 0, 2}
		ev[k-2] = 1
	case 4:
		query = []int{1}
		for i := range ev {
			if i != 1 && i != 4 {
				ev[i] = (i * i / 3) % 2
			}
		}
	case 5:
		query = []int{3, 1}
		ev[(sh+2)%k] = 2
		if (sh+2)%k == 3 || (sh+2)%k == 1 {
			ev[(sh+2)%k], ev[0] = -1, 1
		}
	}
	checkQuery(n, n.build(permSome(k, vh.Choose("declaration order", 3)), permSome(k, vh.Choose("table order", 2))), ev, query, true)
}

// UtilityLarge: four to six utility nodes with and without weights in a network of six chance nodes.
func UtilityLarge() {
	n := bigDag([]int{2, 2, 3, 2, 2, 2}, [][]int{{}, {0}, {0}, {1, 2}, {3}, {3}})
	n.fixed(0, 0, 3)
	c := len(n.nodes)
	m := 4 + vh.Choose("utilities", 3)
	ps := [][]int{{4}, {2, 0}, {5, 4}, {1}, {3, 2, 0, 1}, {0, 1, 5}}
	for i := 0; i < m; i++ {
		u := n.util(fmt.Sprintf("U%d", (i*5+2)%7), ps[i]...)
		if i%2 == 0 {
			for j := range n.nodes[u].table {
				n.nodes[u].table[j] = float64((j*7+3*i)%9) - 4
			}
		}
	}
	total := -1
	switch vh.Choose("weights", 3) {
	case 1:
		var us []int
		for i := 0; i < m; i++ {
			us = append(us, c+(i*5+1)%m)
		}
		if m == 5 {
			us = []int{c + 2, c, c + 4, c + 1, c + 3}
		}
		total = n.weightNode("Sum", us...)
	case 2:
		var us []int
		for i := 0; i < m; i++ {
			us = append(us, c+i)
		}
		total = n.weightNode("A total", us...)
		n.nodes[total].table[1] = 0
		n.nodes[total].table[m-1] = -2
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 3)), permSome(k, vh.Choose("table order", 2)))
	which := []int{-1, c, c + m - 1, c + 1}[vh.Choose("which", 4)]
	ev := none(k)
	var query []int
	switch vh.Choose("request", 5) {
	case 1:
		ev[4] = 1
	case 2:
		ev[2], ev[5] = 2, 0
		query = []int{0}
	case 4:
		ev[2], ev[5], ev[4], ev[1] = 1, 1, 0, 1
	case 3:
		query = []int{4, 1}
	}
	checkUtility(n, net, ev, query, which, total, nil, false)
}

// veNet creates solver variables and factors for a reference network; ids and positions differ.
func veNet(n *rnet, order []int, weights []float64) (*ve.VE, []ve.Variable) {
	vs := ve.NewVariables()
	vars := make([]ve.Variable, len(n.nodes))
	for _, i := range order {
		vars[i] = vs.AddVariable(100-7*i, n.nodes[i].kind, uint16(len(n.nodes[i].outs)))
	}
	var facs []ve.Factor
	deps := map[ve.Variable][]ve.Variable{}
	for j := range order {
		i := order[len(order)-1-j]
		nd := &n.nodes[i]
		if nd.kind == ve.DecisionNode {
			deps[vars[i]] = pickVars(vars, nd.parents)
			continue
		}
		fv := append(pickVars(vars, nd.parents), vars[i])
		if nd.kind == ve.UtilityNode && i%2 == 1 {
			// a utility has a single outcome, so its place among the variables is free
			copy(fv[1:], fv[:len(fv)-1])
			fv[0] = vars[i]
		}
		facs = append(facs, vs.CreateFactor(fv, append([]float64{}, nd.table...)))
	}
	return ve.New(vs, facs, deps, weights), vars
}

// readFactor reads the value of a solver's factor for an assignment of the nodes.
func readFactor(f *ve.Factor, vars []ve.Variable, asg []int) (float64, bool) {
	fv := f.Variables()
	idx := make([]int, len(fv))
	for i := range fv {
		at := -1
		for k := range vars {
			if fv[i].Is(vars[k]) {
				at = k
			}
		}
		if at < 0 {
			return 0, false
		}
		idx[i] = asg[at]
	}
	return f.Get(idx), true
}

// VeQuery: the solver used directly, with its own variables.
func VeQuery() {
	parents := shapes4[vh.Choose("shape", len(shapes4))]
	n := dag([]int{2, 3, 2, 2}, parents, false)
	n.fillDist()
	solver, vars := veNet(n, permSome(4, vh.Choose("declaration order", 3)), nil)
	ev := none(4)
	var evs []ve.Evidence
	switch vh.Choose("evidence", 4) {
	case 1:
		ev[3] = 1
		evs = append(evs, ve.Evidence{Variable: vars[3], Value: 1})
	case 2:
		ev[0], ev[1] = 1, 2
		evs = append(evs, ve.Evidence{Variable: vars[1], Value: 2}, ve.Evidence{Variable: vars[0], Value: 1})
	case 3:
		ev[1], ev[2] = 0, 1
		evs = append(evs, ve.Evidence{Variable: vars[1], Value: 0}, ve.Evidence{Variable: vars[2], Value: 1})
	}
	query := chooseQuery(ev, true)
	f := solver.SolveQuery(evs, pickVars(vars, query))
	vh.Assert(len(f.Variables()) == len(query), "the factor has the query variables")
	m, _ := n.masses(ev, query)
	sizes := n.sizes()
	asg := make([]int, 4)
	n.each(ev, func(a []int) {
		copy(asg, a)
		got, ok := readFactor(f, vars, asg)
		vh.Assert(ok, "variables of the factor")
		vh.EqF(got, m[flat(pick(asg, query), pick(sizes, query))], "joint probability")
	})
	if len(query) > 0 {
		g := solver.Variables().Rearrange(f, pickVars(vars2(f, vars), query))
		sameData(g.Data(), m, "rearranged joint probability")
	}
	vh.Reach("query")
}

// vars2 gives for every variable the one used in the factor, where it has it.
func vars2(f *ve.Factor, vars []ve.Variable) []ve.Variable {
	out := append([]ve.Variable{}, vars...)
	for _, v := range f.Variables() {
		for i := range out {
			if out[i].Is(v) {
				out[i] = v
			}
		}
	}
	return out
}

// VeUtility: the same for utilities, with and without weights.
func VeUtility() {
	n := dag([]int{2, 3, 2}, [][][]int{{{}, {0}, {1}}, {{}, {}, {0, 1}}}[vh.Choose("shape", 2)], false)
	n.fillDist()
	u := n.util("U", 1)
	v := n.util("V", 2, 0)
	order := permSome(5, vh.Choose("declaration order", 3))
	var weights []float64
	w := map[int]float64{u: 1, v: 1}
	if vh.Choose("weights", 2) == 1 {
		w[u], w[v] = vh.Real("wu"), vh.Real("wv")
		for _, i := range order {
			if i == u || i == v {
				weights = append(weights, w[i])
			}
		}
	}
	solver, vars := veNet(n, order, weights)
	ev := none(5)
	var evs []ve.Evidence
	if vh.Choose("evidence", 2) == 1 {
		ev[1] = 2
		evs = append(evs, ve.Evidence{Variable: vars[1], Value: 2})
	}
	query := smallQuery(ev, 3)
	which := []int{-1, u, v}[vh.Choose("which", 3)]
	var uv *ve.Variable
	if which >= 0 {
		uv = &vars[which]
	}
	f := solver.SolveUtility(evs, pickVars(vars, query), uv)
	qs := pick(n.sizes(), query)
	want := make([]float64, size(qs))
	n.each(ev, func(a []int) {
		x := 0.0
		if which >= 0 {
			x = n.entry(which, a)
		} else {
			x = w[u]*n.entry(u, a) + w[v]*n.entry(v, a)
		}
		want[flat(pick(a, query), qs)] += n.joint(a) * x
	})
	n.each(ev, func(a []int) {
		got, ok := readFactor(f, vars, a)
		vh.Assert(ok, "variables of the factor")
		vh.EqF(got, want[flat(pick(a, query), qs)], "expected utility")
	})
	vh.Reach("utility")
}

// InForce3: three decisions; what is asked for does not influence the policies.
func InForce3() {
	n := &rnet{}
	a := n.chance("A", []float64{0.25, 0.75}, 2)
	d := n.decision("D", 2, a)
	b := n.chance("B", []float64{0.5, 0.5, 0.125, 0.875, 0.25, 0.75, 0.625, 0.375}, 2, a, d)
	e := n.decision("E", 3, d, b, a)
	g := n.decision("G", 2, e, b, d, a)
	us := []int{n.util("U", a, d), n.util("V", e, b), n.util("W", g, e, a)}
	tabs := [][]float64{{1, 3, 4, 2}, {0, 5, 2, 1, 4, 4}, {1, 2, 4, 0, 3, 3, -1, 5, 2, 2, 0, 6}}
	for i, u := range us {
		copy(n.nodes[u].table, tabs[i])
	}
	r := n.chance("Report", append(vh.Dist("r", 2), 0.25, 0.75, 0.875, 0.125, 0.5, 0.5), 2, g, a)
	s := n.chance("Second", []float64{0.25, 0.75, 0.5, 0.5, 0.125, 0.875, 0.75, 0.25, 0.375, 0.625, 0.5, 0.5}, 2, r, e)
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", deep(2, 3))), permSome(k, 1))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, d, e, g)
	ev := none(k)
	ev[d] = vh.Choose("evidence", 3) - 1
	ev[e] = []int{-1, 0, 2}[vh.Choose("evidence", 3)]
	ev[g] = vh.Choose("evidence", 3) - 1
	if vh.Choose("report", 2) == 1 {
		ev[s] = 1
	}
	checkInForce(n, net, ev, -1, pol, vh.Choose("ignore policies", 2) == 1)
}

// FactorProductMany: five to seven operands over five variables, the same one twice, or none.
func FactorProductMany() {
	vs := ve.NewVariables()
	sizes := []int{2, 3, 2, 1, 2}
	vars := mixedVars(vs, sizes)
	menu := [][]int{{4, 0}, {1}, {2, 1, 0}, {}, {3, 4}, {0, 2}, {4, 1, 3}}
	n := 5 + vh.Choose("operands", 3)
	rot := vh.Choose("rotation", 7)
	var ops []ve.Factor
	var ats [][]int
	var ptr []*ve.Factor
	for i := 0; i < n; i++ {
		at := menu[(i+rot)%7]
		ops = append(ops, vs.CreateFactor(pickVars(vars, at), realTable(fmt.Sprintf("f%d_", i), size(pick(sizes, at)))))
		ats = append(ats, at)
	}
	var copies [][]float64
	for i := range ops {
		ptr = append(ptr, &ops[i])
		copies = append(copies, append([]float64{}, ops[i].Data()...))
	}
	if vh.Choose("one twice", 2) == 1 {
		ptr = append(ptr, &ops[2])
		ops = append(ops, ops[2])
		ats = append(ats, ats[2])
		copies = append(copies, copies[2])
	}
	p := vs.Product(ptr...)
	s := vs.Sum(ptr...)
	checkCombined(p, vars, sizes, ops, ats, false, "product")
	checkCombined(s, vars, sizes, ops, ats, true, "sum")
	for i := range p.Data() {
		p.Data()[i] = 77
	}
	for i := range s.Data() {
		s.Data()[i] = 78
	}
	for i := range ops {
		sameData(ops[i].Data(), copies[i], "operand unmodified")
		sameVars(ops[i].Variables(), pickVars(vars, ats[i]), "operand variables unmodified")
	}
	vh.Reach("end")
}

// mixedVars creates variables whose positions and ids are in different orders, among others.
func mixedVars(vs *ve.Variables, sizes []int) []ve.Variable {
	out := make([]ve.Variable, len(sizes))
	vs.AddVariable(55, ve.ChanceNode, 4)
	p := permSome(len(sizes), vh.Choose("creation order", 3))
	for _, i := range p {
		out[i] = vs.AddVariable([]int{7, 0, 12, 3, 1, 20, 5, 9}[i], []ve.NodeType{ve.ChanceNode, ve.DecisionNode}[i%2], uint16(sizes[i]))
	}
	vs.AddVariable(56, ve.UtilityNode, 1)
	return out
}

// FactorReduceMany: five variables in an order that is not that of their creation.
func FactorReduceMany() {
	vs := ve.NewVariables()
	sizes := [][]int{{2, 3, 1, 2, 2}, {3, 2}, {2, 3, 2}, {1, 1, 2}, {2, 2, 2, 3}}[vh.Choose("sizes", 5)]
	n := len(sizes)
	vars := mixedVars(vs, sizes)
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	k := vh.Choose("variable", n)
	o := vh.Choose("observation", sizes[k])
	var rest []int
	for i := range sizes {
		if i != k {
			rest = append(rest, i)
		}
	}
	r := vs.Restrict(&f, vars[k], o)
	s := vs.SumOut(&f, vars[k])
	m := vs.Marginal(&f, vars[k])
	sameVars(r.Variables(), pickVars(vars, rest), "restrict: remaining variables in order")
	sameVars(s.Variables(), pickVars(vars, rest), "sum out: remaining variables in order")
	sameVars(m.Variables(), []ve.Variable{vars[k]}, "marginal: one variable")
	rs := pick(sizes, rest)
	vh.Assert(len(r.Data()) == size(rs) && len(s.Data()) == size(rs) && len(m.Data()) == sizes[k], "table lengths")
	marg := make([]float64, sizes[k])
	sums := make([]float64, size(rs))
	asg := make([]int, n)
	for {
		v := data[flat(asg, sizes)]
		at := flat(pick(asg, rest), rs)
		marg[asg[k]] += v
		sums[at] += v
		if asg[k] == o {
			vh.EqF(r.Data()[at], v, "restrict keeps the values of the outcome")
		}
		if !next(asg, sizes) {
			break
		}
	}
	sameData(s.Data(), sums, "sum out")
	sameData(m.Data(), marg, "marginal")
	sameData(f.Data(), data, "operand unmodified")
	sameVars(f.Variables(), vars, "operand variables unmodified")
	// one after another
	if n > 2 {
		j := rest[vh.Choose("second", len(rest))]
		r2 := vs.Restrict(&s, vars[j], sizes[j]-1)
		s2 := vs.SumOut(&r, vars[j])
		var rest2 []int
		for _, x := range rest {
			if x != j {
				rest2 = append(rest2, x)
			}
		}
		sameVars(r2.Variables(), pickVars(vars, rest2), "remaining variables in order")
		sameVars(s2.Variables(), pickVars(vars, rest2), "remaining variables in order")
		rs2 := pick(sizes, rest2)
		w1, w2 := make([]float64, size(rs2)), make([]float64, size(rs2))
		for i := range asg {
			asg[i] = 0
		}
		for {
			v := data[flat(asg, sizes)]
			at := flat(pick(asg, rest2), rs2)
			if asg[j] == sizes[j]-1 {
				w1[at] += v
			}
			if asg[k] == o {
				w2[at] += v
			}
			if !next(asg, sizes) {
				break
			}
		}
		sameData(r2.Data(), w1, "sum out, then restrict")
		sameData(s2.Data(), w2, "restrict, then sum out")
	}
	vh.Reach("end")
}

// FactorIndexMany: four to six variables.
func FactorIndexMany() {
	vs := ve.NewVariables()
	sizes := [][]int{{2, 3, 2, 3}, {3, 1, 2, 2, 2}, {2, 2, 2, 2, 2, 2}, {1, 4, 1, 3, 2, 2}, {5, 4, 3, 2}, {2, 3, 2, 1, 2, 3, 2}, {2, 1, 3, 2, 2, 3, 1, 2}}[vh.Choose("sizes", 7)]
	vars := mixedVars(vs, sizes)
	n := len(sizes)
	f := vs.CreateFactor(vars, nil)
	vh.Assert(len(f.Data()) == size(sizes), "table length")
	a := symIdx("a", sizes)
	want := flat(a, sizes)
	vh.Assert(f.Index(a) == want, "row-major order")
	p2, ok := f.IndexWithNoData(a)
	vh.Assert(ok && p2 == want, "IndexWithNoData agrees")
	back := make([]int, n)
	f.Outcomes(want, back)
	for i := range a {
		vh.Assert(back[i] == a[i], "Outcomes inverts Index")
	}
	row, ln := f.RowIndex(a[:n-1])
	vh.Assert(row+a[n-1] == want && ln == sizes[n-1], "RowIndex")
	c := append([]int{}, a...)
	miss := vh.Choose("missing", n)
	c[miss] = -1
	if vh.Choose("two missing", 2) == 1 {
		c[(miss+2)%n] = -1
	}
	_, ok = f.IndexWithNoData(c)
	vh.Assert(!ok, "missing data is reported")
	vh.Reach("end")
}

// FactorRearrangeMany: five variables, positions and ids in other orders; rearranging for one variable normalised.
func FactorRearrangeMany() {
	vs := ve.NewVariables()
	sizes := [][]int{{2, 3, 1, 2, 2}, {2, 3, 4}, {3, 2, 2, 2}}[vh.Choose("sizes", 3)]
	n := len(sizes)
	vars := mixedVars(vs, sizes)
	data := posTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	p := perm(n, vh.Choose("order", fact(min(n, 4)))*(fact(n)/fact(min(n, 4))))
	r := vs.Rearrange(&f, pickVars(vars, p))
	sameVars(r.Variables(), pickVars(vars, p), "rearranged variables")
	k := vh.Choose("variable", n)
	g := vs.NormalizeFor(&f, vars[k])
	h := vs.NormalizeFor(&r, vars[k])
	var order []int
	for i := range sizes {
		if i != k {
			order = append(order, i)
		}
	}
	order = append(order, k)
	sameVars(g.Variables(), pickVars(vars, order), "normalised variable is last")
	var order2 []int
	for _, i := range p {
		if i != k {
			order2 = append(order2, i)
		}
	}
	order2 = append(order2, k)
	sameVars(h.Variables(), pickVars(vars, order2), "normalised variable is last, the others keep their order")
	asg := make([]int, n)
	for {
		vh.EqF(r.Data()[flat(pick(asg, p), pick(sizes, p))], data[flat(asg, sizes)], "rearranged value")
		row := 0.0
		x := asg[k]
		for o := 0; o < sizes[k]; o++ {
			asg[k] = o
			row += data[flat(asg, sizes)]
		}
		asg[k] = x
		want := data[flat(asg, sizes)] / row
		vh.EqF(g.Data()[flat(pick(asg, order), pick(sizes, order))], want, "row-normalised value")
		vh.EqF(h.Data()[flat(pick(asg, order2), pick(sizes, order2))], want, "row-normalised value after rearranging")
		if !next(asg, sizes) {
			break
		}
	}
	vh.Reach("end")
}

// FactorPolicyMany: three and four variables, one row arbitrary, positions and ids in other orders.
func FactorPolicyMany() {
	vs := ve.NewVariables()
	sizes := [][]int{{2, 3, 2}, {2, 2, 3, 2}, {3, 1, 2, 2}}[vh.Choose("sizes", 3)]
	vars := mixedVars(vs, sizes)
	k := vh.Choose("variable", len(sizes))
	data := make([]float64, size(sizes))
	for i := range data {
		data[i] = float64((i*i+3*i)%7) - 6
	}
	// one row of arbitrary values
	asg := make([]int, len(sizes))
	for i := range asg {
		asg[i] = vh.Choose("row", sizes[i])
		if i == k {
			asg[i] = 0
		}
	}
	for o := 0; o < sizes[k]; o++ {
		asg[k] = o
		data[flat(asg, sizes)] = vh.Real(fmt.Sprintf("v%d", o))
	}
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	p := vs.Policy(&f, vars[k])
	checkPolicy(p, sizes, k, vars, data)
	sameData(f.Data(), data, "operand unmodified")
	vh.Reach("end")
}

// BuildMany: twelve nodes, one of them with any name and type, one with any parent.
func BuildMany() {
	names := []string{"a", "b", "c", "d", "e", "f", "u", "v", "w", "g", "h", "i"}
	types := []int{0, 0, 1, 0, 0, 0, 2, 2, 2, 0, 1, 0}
	parents := [][]string{{}, {"a"}, {"b"}, {"c", "a"}, {}, {"d", "e"}, {"f"}, {"c"}, {"u", "v"}, {"f"}, {"g"}, {"h", "i"}}
	parents[11] = nil
	nodes := make([]bnode, len(names))
	for i := range nodes {
		nodes[i] = bnode{name: names[i], typ: types[i], outs: 2, parents: parents[i], factor: true}
	}
	at := vh.Choose("node", len(nodes))
	switch vh.Choose("what", 4) {
	case 3:
		// a utility or total-utility node with many parents, one of them of any type
		var ps []string
		for i := 0; i < 5; i++ {
			p := []string{"p0", "p1", "p2", "p3", "p4"}[i]
			ps = append(ps, p)
			t := 2 * (at % 2)
			if i == at%5 {
				t = anyType()
			}
			q := bnode{name: p, typ: t, outs: 1, factor: true}
			if t == 2 {
				q.parents = []string{"a"}
			}
			nodes = append(nodes, q)
		}
		nodes = append(nodes, bnode{name: "total", typ: 2, outs: 5 - at/10, parents: ps, factor: true})
		nodes[8].parents = []string{"f"}
	case 0:
		nodes[at].name = anyName("name")
	case 1:
		nodes[at].typ = anyType()
	case 2:
		nodes[at].parents = append(append([]string{}, nodes[at].parents...), anyName("parent"))
	}
	if vh.Choose("order", 2) == 1 {
		for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
			nodes[i], nodes[j] = nodes[j], nodes[i]
		}
	}
	checkBuild(nodes)
}

// NamesLong: names and values of many bytes, of which one is arbitrary.
func NamesLong() {
	vn := []string{"A rather long name of a node", "Naïve Bayes über alles", "x.y-z_0(1)[2]{3}/4", "tab\there, there"}[vh.Choose("name", 4)]
	outs := []string{"very likely indeed, or so", "very likely indeed, or not", "ünlikely", " "}
	net, err := bbn.New("net", "", []bbn.Variable{
		{Name: "other", Outcomes: []string{"yes", "no"}},
		{Name: vn, Outcomes: outs},
	}, []bbn.Factor{
		{For: vn, Given: []string{"other"}, Table: []float64{0.25, 0.25, 0.25, 0.25, 0.5, 0.25, 0.125, 0.125}},
		{For: "other", Table: []float64{0.5, 0.5}},
	})
	noErr(err, "building")
	name, value := vn, outs[vh.Choose("value", 4)]
	if vh.Choose("what", 2) == 0 {
		at := vh.Choose("at", len(name))
		name = name[:at] + vh.Str("byte", 1, 0, 255) + name[at+1:]
	} else {
		at := vh.Choose("at", len(value))
		value = value[:at] + vh.Str("byte", 1, 0, 255) + value[at+1:]
	}
	valid := vh.And(name == vn, posOf(outs, value) >= 0)
	p, err := net.ToEvidence(name, value)
	vh.Assert((err == nil) == valid, "evidence is accepted exactly if valid")
	if err == nil {
		vh.Assert(len(p) == 4, "size of the distribution")
		for k := range outs {
			vh.EqF(p[k], vh.IteF(posOf(outs, value) == k, 1, 0), "one at the outcome, zero elsewhere")
		}
	}
	res, _, err := net.SolveQuery(map[string]string{name: value}, []string{"other"}, false)
	vh.Assert((err == nil) == valid, "a query is answered exactly if the evidence is valid")
	if err == nil {
		w := [][]float64{{0.25, 0.25, 0.25, 0.25}, {0.5, 0.25, 0.125, 0.125}}
		for k := range outs {
			if posOf(outs, value) == k {
				vh.EqF(res["other"][0], w[0][k]/(w[0][k]+w[1][k]), "answer for that evidence")
			}
		}
		vh.Reach("accepted")
		return
	}
	vh.Reach("rejected")
}
